# -*- coding: utf-8 -*-
"""Runner: generated-input search with shrinking, replay and evidence.

A property is a list of ``Sub`` checks. A ``Sub`` has a Hypothesis strategy
yielding JSON-able case data and a function ``run(case, ctx)`` holding the
oracle: it returns normally if the property held for the case and raises
otherwise. Cases pass through JSON before they run, so that the replay file,
which is that JSON, is exactly what was executed.
"""
import faulthandler
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

from vt import env

MEM = 4 << 30
CPU_PER_CASE = 20.0    # seconds; cases normally take milliseconds
WALL_PER_CASE = 120.0
SHRINK_SECONDS = 40.0


class Violation(AssertionError):
    """The property does not hold."""


class Hang(BaseException):
    """A case did not terminate."""


class StopShrinking(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if not (got == want):
        raise Violation('%s: got %s, want %s' % (what, short(got), short(want)))


def same(got, want, what):
    if got is not want:
        raise Violation('%s: got %s, want the very object %s'
                        % (what, short(got), short(want)))


def short(ob):
    try:
        res = repr(ob)
    except Exception as e:
        res = '<repr failed: %r>' % (e,)
    return res if len(res) < 400 else res[:400] + '...'


def raises(exc, func, *args, **kw):
    """Call func, which must raise exc (class or tuple of); return it."""
    try:
        res = func(*args, **kw)
    except exc as e:
        return e
    except Exception as e:
        raise Violation('%s raised %r instead of %r'
                        % (getattr(func, '__name__', func), e, exc))
    raise Violation('%s returned %s instead of raising %r'
                    % (getattr(func, '__name__', func), short(res), exc))


class Ctx(object):
    """What a case reports about itself."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub(object):

    def __init__(self, name, strategy, run, quick, thorough=None, weight=1):
        self.name = name
        self.strategy = strategy      # callable(tier) -> strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10


class Prop(object):

    def __init__(self, id, subs, rule, probes=(), assumptions=(),
                 level='exploration', timing=False):
        self.id = id
        self.subs = subs
        self.rule = rule
        self.probes = dict(probes)
        self.assumptions = list(assumptions)
        self.level = level
        # whether a failure may be due to threads being slow; such a failure
        # counts only if it can be repeated
        self.timing = timing

    def sub(self, name):
        for sub in self.subs:
            if sub.name == name:
                return sub
        raise KeyError(name)


# ---------------------------------------------------------------------------
# running one case

def _alarm(signum, frame):
    raise Hang('case did not terminate')


def guarded(func, case, ctx):
    """Run one case under CPU and wall clock alarms."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_PER_CASE)
    signal.setitimer(signal.ITIMER_REAL, WALL_PER_CASE)
    try:
        func(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def describe(e):
    if isinstance(e, Violation):
        return str(e)
    if isinstance(e, Hang):
        return 'does not terminate'
    tb = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                        for f in reversed(tb[-4:]))
    return 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)


def norm(case):
    return json.loads(json.dumps(case))


# ---------------------------------------------------------------------------
# worker

def executor(sub, state, seen, result, shard):
    def execute(case):
        text = json.dumps(case)
        case = json.loads(text)
        if state['since'] is not None:
            if time.time() - state['since'] > SHRINK_SECONDS:
                raise StopShrinking()
        ctx = Ctx()
        result['evaluations'] += 1
        result['subs'][sub.name] = result['subs'].get(sub.name, 0) + 1
        try:
            guarded(sub.run, case, ctx)
        except (Exception, Hang) as e:
            if isinstance(e, _control()):
                raise
            if state['since'] is None:
                state['since'] = time.time()
            if state['best'] is None \
                    or len(text) <= len(state['best']):
                state['best'] = text
                state['msg'] = describe(e)
            raise
        for label in ctx.labels:
            label = '%s:%s' % (sub.name, label)
            result['labels'][label] = \
                result['labels'].get(label, 0) + 1
        if ctx.nontrivial:
            digest = hashlib.blake2b(
                (sub.name + text).encode('utf-8'),
                digest_size=8).hexdigest()
            if digest not in seen:
                seen.add(digest)
                if shard == 0 and len(text) < 3000:
                    mine = [s for s in result['samples']
                            if s['sub'] == sub.name]
                    if len(mine) < 2:
                        result['samples'].append(
                            dict(sub=sub.name, case=case))

    return execute


def worker(prop, tier, seed, shard, shards, scale, out, shrink=True):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    from hypothesis import HealthCheck, Phase, Verbosity
    from hypothesis import given, settings
    import hypothesis
    hypothesis.configuration.set_hypothesis_home_dir('/nonexistent/vt')
    result = dict(evaluations=0, hashes=[], labels={}, samples=[],
                  failures=[], error=None, subs={})
    try:
        for sub in prop.subs:
            total = sub.quick if tier == 'quick' else sub.thorough
            total = max(1, int(total * scale))
            n = total // shards + (1 if shard < total % shards else 0)
            if not n:
                continue
            state = dict(best=None, since=None, msg=None)
            seen = set()

            execute = executor(sub, state, seen, result, shard)
            test = given(sub.strategy(tier))(execute)
            test = settings(
                max_examples=n, database=None, deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink] if shrink
                else [Phase.generate],
                print_blob=False, report_multiple_bugs=False,
                verbosity=Verbosity.quiet)(test)
            test = hypothesis.seed(subseed(seed, prop.id, sub.name, shard))(
                test)
            err = None
            stderr = sys.stderr
            try:
                test()
            except (StopShrinking, Hang):
                pass
            except BaseException as e:
                err = e
            finally:
                sys.stderr = stderr
            result['hashes'].extend(seen)
            if state['best'] is not None:
                result['failures'].append(
                    dict(sub=sub.name, case=json.loads(state['best']),
                         msg=state['msg'], session=dict(
                             tier=tier, seed=seed, shard=shard,
                             shards=shards, scale=scale)))
                break
            elif err is not None:
                result['error'] = '%s: %s' % (
                    sub.name, ''.join(traceback.format_exception(err))[-4000:])
    except BaseException:
        result['error'] = traceback.format_exc()[-4000:]
    with open(out + '.tmp', 'w') as f:
        json.dump(result, f)
    os.rename(out + '.tmp', out)


def _control():
    from hypothesis.errors import UnsatisfiedAssumption, StopTest
    try:
        from hypothesis.errors import Frozen
    except ImportError:
        Frozen = StopTest
    return (UnsatisfiedAssumption, StopTest, Frozen)


def subseed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


# ---------------------------------------------------------------------------
# known findings

def known_findings():
    """Lines ``known: property=<id> probe=<name> <what fails>`` and
    ``fixed: property=<id> <commit> <what failed>``.
    """
    res = []
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                parts = line.strip().split(' ', 3)
                res.append((parts[1].split('=')[1], parts[2].split('=')[1],
                            parts[3]))
    return res


def run_probes(prop):
    """A probe runs one specific listed input against the real code and
    returns True if it fails as described."""
    for pid, name, what in known_findings():
        if pid != prop.id:
            continue
        if prop.probes[name]():
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, what, name))


# ---------------------------------------------------------------------------
# main entry points

def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    if data.get('mode') == 'session':
        return replay_session(prop, data)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sub = prop.sub(data['sub'])
    try:
        guarded(sub.run, norm(data['case']), Ctx())
    except (Exception, Hang) as e:
        print('replay fails: %s' % describe(e))
        if os.environ.get('VT_TRACE'):
            traceback.print_exc()
        return 1
    print('replay passes')
    return 0


def replay_session(prop, data):
    """The property fails only after the earlier cases of the run, because
    the code under test keeps state between them: run all of them again.
    """
    out = os.path.join(evidence_folder(), '.session-%d' % os.getpid())
    worker(prop, data['session']['tier'], data['session']['seed'],
           data['session']['shard'], data['session']['shards'],
           data['session']['scale'], out, shrink=False)
    with open(out) as f:
        result = json.load(f)
    os.unlink(out)
    for failure in result['failures']:
        print('replay fails: %s: %s' % (failure['sub'], failure['msg']))
        print('case: %s' % json.dumps(failure['case'])[:2000])
        return 1
    print('replay passes')
    return 0


def run(prop, tier, seed):
    start = time.time()
    scale = float(os.environ.get('VT_SCALE', '1'))
    shards = int(os.environ.get('VT_SHARDS', '8'))
    evid = evidence_folder()
    os.makedirs(evid, exist_ok=True)
    tmp = os.path.join(evid, '.work-%s-%d' % (prop.id, os.getpid()))
    os.makedirs(tmp)
    sys.stdout.flush()
    pids = {}
    import hypothesis  # noqa: import once, before forking
    for shard in range(shards):
        out = os.path.join(tmp, 'shard%d.json' % shard)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get('VT_TRACE'):
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                worker(prop, tier, seed, shard, shards, scale, out)
            except BaseException:
                code = 3
            os._exit(code)
        pids[pid] = out
    limit = 780 if tier == 'quick' else 6 * 3600
    results, errors = [], []
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() - start > limit:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                errors.append('workers did not finish in %ss' % limit)
                break
            time.sleep(0.01)
            continue
        out = pids.pop(pid, None)
        if out is None:
            continue
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
            os.unlink(out)
        else:
            errors.append('worker ended with status %s' % status)
    for name in os.listdir(tmp):
        os.unlink(os.path.join(tmp, name))
    os.rmdir(tmp)

    labels, subs, hashes, samples, failures = {}, {}, set(), [], []
    evaluations = 0
    for res in results:
        evaluations += res['evaluations']
        hashes.update(res['hashes'])
        samples.extend(res['samples'])
        failures.extend(res['failures'])
        if res['error']:
            errors.append(res['error'])
        for target, source in ((labels, res['labels']), (subs, res['subs'])):
            for key, n in source.items():
                target[key] = target.get(key, 0) + n
    failures.sort(key=lambda x: (x['sub'], len(json.dumps(x['case'])),
                                 json.dumps(x['case'])))
    confirmed = []
    unconfirmed = []
    for failure in failures[:6]:
        path = write_replay(prop, failure)
        ok = confirm(prop, path)
        if ok:
            confirmed.append((path, failure))
            break
        unconfirmed.append((path, failure))
    if not confirmed:
        for _, failure in unconfirmed[:2]:
            path = write_replay(prop, dict(failure, mode='session'))
            if confirm(prop, path, 1):
                confirmed.append((path, failure))
                break
    evidence = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': prop.rule,
            'samples': samples[:6],
            'evaluations_by_sub': subs,
            'labels': dict(sorted(labels.items())),
            'shards': shards,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - start, 2),
        'violations': len(confirmed),
    }
    path = os.path.join(evid, '%s.json' % prop.id)
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.rename(path + '.tmp', path)
    if confirmed:
        path, failure = confirmed[0]
        print('%s %s: %s' % (prop.id, failure['sub'], failure['msg']))
        print('case: %s' % json.dumps(failure['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if unconfirmed:
        for path, failure in unconfirmed:
            print('failure not reproduced by %s: %s: %s'
                  % (path, failure['sub'], failure['msg']))
        if prop.timing and not errors:
            print('OK %s: %d cases, %.1fs; these failures are not counted'
                  % (prop.id, evaluations, time.time() - start))
            run_probes(prop)
            return 0
        print('ERROR: %s: irreproducible failure' % prop.id)
        return 2
    if errors:
        print('ERROR: %s: %s' % (prop.id, errors[0]))
        return 2
    run_probes(prop)
    print('OK %s: %d cases, %d distinct non-trivial, %.1fs'
          % (prop.id, evaluations, len(hashes), time.time() - start))
    return 0


def evidence_folder():
    # another folder while mutants are tried in parallel
    return os.environ.get('VT_EVIDENCE') \
        or os.path.join(env.VERIF, 'evidence')


def write_replay(prop, failure):
    text = json.dumps(dict(property=prop.id, **failure), indent=1,
                      sort_keys=True)
    digest = hashlib.blake2b(text.encode(), digest_size=5).hexdigest()
    folder = os.path.join(evidence_folder(), 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s.json' % (prop.id, digest))
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def confirm(prop, path, times=3):
    """A failure counts only if a fresh process fails on the replay file."""
    for _ in range(times):
        res = subprocess.run(
            [sys.executable, '-W', 'ignore', '-m', 'vt.main', prop.id,
             '--replay', path],
            cwd=env.VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=400)
        if res.returncode == 1:
            return True
    return False
