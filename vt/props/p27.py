# -*- coding: utf-8 -*-
import threading

from hypothesis import strategies as st

from vt import classes, gen
from vt import evworld as w
from vt.core import Prop, Sub, Violation, short
from vt.sched import Sched

NAMES = ['a', 'b', 'c', 'f']


class Tree(object):
    """A tree of fallback aware nodes and lookups on it."""

    def __init__(self, spec):
        flags = classes.normalize(['Fallback']) + ['OdictStorage']
        cls = classes.build('Composed', tuple(flags))
        self.nodes = [cls(name='root')]
        for path in spec['paths']:
            node = self.nodes[0]
            for name in path:
                if name not in node.keys():
                    node[name] = cls()
                    self.nodes.append(node[name])
                node = node[name]
        for i, key in spec['fallbacks']:
            gen.pick(self.nodes, i).fallback_key = key

    def read(self, i, path, how):
        node = gen.pick(self.nodes, i)
        try:
            for name in path:
                if how == 0:
                    node = node[name]
                elif how == 1:
                    node = node.get(name)
                else:
                    if name not in node:
                        return 'missing %s' % name
                    node = node[name]
                if node is None:
                    return 'none'
        except KeyError as e:
            return 'KeyError %r' % (e.args,)
        return '/'.join(node.path)


class Thread(object):

    def __init__(self, case, spec, share, contexts, ctx, router):
        self.world = w.World(dict(case, subs=spec['subs'],
                                  decos=spec['decos']), True, ctx, share)
        self.world.contexts = list(contexts)
        self.tree = Tree(spec)
        self.spec = spec
        self.results = []
        self.sched = None
        self.router = router

    def __call__(self):
        self.router.world = self.world
        if self.sched is not None:
            self.world.point = self.sched.point
        script, reads = list(self.spec['script']), list(self.spec['reads'])
        while script or reads:
            if script:
                self.world.run([script.pop(0)])
            if reads:
                if self.sched is not None:
                    self.sched.point()
                self.results.append(self.tree.read(*reads.pop(0)))

    def log(self):
        return [[x] for x in self.world.log] + self.results


def cases(tier):
    basic = [w.fire, w.fire, w.set_, w.set_, w.raise_]
    react = w.contexts(w.bodies(w.fire, w.set_, max_size=2))
    node = st.integers(0, 12)
    name = st.sampled_from(NAMES)
    thread = st.fixed_dictionaries(dict(
        subs=w.subs(w.fire, w.set_, *react),
        decos=st.lists(gen.one_of(st.just([]), st.just([]),
                                 w.bodies(w.set_, *react, max_size=2)),
                       max_size=3),
        script=st.tuples(
            st.lists(w.new, min_size=1, max_size=2),
            st.lists(w.bind | w.bindattr, min_size=1, max_size=3),
            st.lists(gen.one_of(w.fire, w.set_, w.set_, w.delete,
                               *w.contexts(w.suppressing(*basic))),
                     min_size=1, max_size=5)).map(
                         lambda x: x[0] + x[1] + x[2]),
        paths=st.lists(st.lists(name, min_size=1, max_size=3), min_size=1,
                       max_size=4),
        fallbacks=st.lists(st.tuples(node, st.sampled_from(
            ['f', 'f', 'a', 'zz'])).map(list), min_size=1, max_size=3),
        reads=st.lists(st.tuples(
            node, st.lists(name, min_size=1, max_size=3),
            st.integers(0, 2)).map(list), max_size=4)))
    return st.fixed_dictionaries(dict(
        classes=w.classes(min_attrs=1),
        contexts=st.lists(st.tuples(w.evset, w.small).map(list), max_size=2),
        threads=st.lists(thread, min_size=2, max_size=3),
        schedule=schedules(8, 40), opcodes=st.booleans()))


def schedules(min_size, max_size):
    return st.lists(st.tuples(
        st.integers(0, 2), st.sampled_from([1, 2, 3, 4, 6, 9, 15, 30])
    ).map(list), min_size=min_size, max_size=max_size)


def small_cases(tier):
    """Short scripts, so that narrow windows are hit."""
    set_ = gen.op('set', st.just(0), st.just(0),
                  st.sampled_from([0, 0, 1, 1, 2, 5]))
    sets = st.sampled_from([[], ['p'], ['p'], ['e0'], ['e0', 'e1']])
    one = st.lists(gen.one_of(w.fire, w.fire, set_, set_, w.delete),
                   min_size=1, max_size=2)
    inner = gen.op('suppress', sets, w.small, one)
    one = gen.one_of(one, one, st.tuples(inner).map(list),
                     st.tuples(inner, set_).map(list))
    thread = st.fixed_dictionaries(dict(
        subs=st.just([[0, []], [1, []]]), decos=st.just([]),
        script=st.tuples(
            st.just([['new', 0], ['bindattr', 0, 0, 0]]),
            st.lists(gen.one_of(set_, set_, w.fire,
                               gen.op('suppress', sets, w.small, one),
                               gen.op('suppress', sets, w.small, one),
                               gen.op('suppress', st.none(), st.just(0), one)),
                     min_size=1, max_size=3)).map(lambda x: x[0] + x[1]),
        paths=st.just([['a', 'b'], ['f', 'b']]),
        fallbacks=st.just([[0, 'f']]),
        reads=st.lists(st.tuples(
            st.integers(0, 1), st.lists(st.sampled_from('ab'), min_size=1,
                                        max_size=2),
            st.just(0)).map(list), max_size=2)))
    attr = dict(name='p', storage=0, explicit=False)
    return st.fixed_dictionaries(dict(
        classes=st.tuples(st.booleans(), st.sampled_from([[], [0], [0, 1]]))
        .map(lambda x: [dict(base=None, kind='object', events=None,
                             plumb=False, own=[dict(
                                 attr, default=0, always=x[0], subs=x[1])])]),
        contexts=st.just([]),
        threads=st.lists(thread, min_size=2, max_size=3),
        schedule=schedules(10, 30), opcodes=st.booleans()))


def sweep_cases(tier):
    return st.tuples(small_cases(tier), st.lists(
        st.integers(1, 120), min_size=1, max_size=2), st.booleans()).map(
            lambda x: dict(x[0], threads=x[0]['threads'][:2], schedule=[],
                           opcodes=False, stops=x[1], swap=x[2]))


def run_sweep(case, ctx):
    """Preempt one thread at each of its points."""
    first, second = (1, 0) if case['swap'] else (0, 1)
    base, share, router, contexts, solo = alone(case, ctx)
    for stop in case['stops'] + [100000]:
        for n in range(1, 150):
            sched = interleaved(case, ctx, base, share, router, contexts,
                                solo, [[first, n], [second, stop],
                                       [first, 100000]])
            if sched.total[first] <= n:
                break
            ctx.label('preempted')
    ctx.hit(n > 20)


def run(case, ctx):
    sched = interleaved(case, ctx, *alone(case, ctx), case['schedule'])
    if sched.switches > 2:
        ctx.label('switched')
    if sched.blocks:
        ctx.label('slow')
    ctx.hit(sched.switches > 2 and sched.called >= 1)


def alone(case, ctx):
    base = dict(classes=case['classes'], subs=[[0, []]], decos=[])
    share = w.World(base, True)
    router = threading.local()
    share.route = lambda: router.world
    contexts = [share.context(*x) for x in case['contexts']]
    solo = []
    for spec in case['threads']:
        thread = Thread(base, spec, share, contexts, ctx, router)
        thread()
        solo.append(thread)
    return base, share, router, contexts, solo


def interleaved(case, ctx, base, share, router, contexts, solo, schedule):
    threads = [Thread(base, spec, share, contexts, ctx, router)
               for spec in case['threads']]
    sched = Sched(threads, schedule, case['opcodes'])
    for thread in threads:
        thread.sched = sched
    sched.run()
    for i, (one, two) in enumerate(zip(solo, threads)):
        for n, (want, got) in enumerate(zip(one.log(), two.log())):
            if want != got:
                raise Violation('thread %d, result %d: got %s, alone %s' % (
                    i, n, short(got), short(want)))
        if len(one.log()) != len(two.log()):
            raise Violation('thread %d: %d results, alone %d' % (
                i, len(two.log()), len(one.log())))
    sched.called = sum(any(x[0][0] in ('sub', 'deco') for x in t.log()
                     if isinstance(x, list)) for t in threads)
    ctx.label('calls-in-%d' % sched.called)
    return sched


PROP = Prop(
    'P27', [Sub('threads', cases, run, 1200),
            Sub('small', small_cases, run, 2400),
            Sub('sweep', sweep_cases, run_sweep, 200)],
    rule='Two or three threads, each with a script of dispatching, setting '
         'event attributes, nested suppression (also with contexts created '
         'in the main thread) on own dispatchers of common classes, and '
         'fallback lookups in an own tree, preempted at generated lines or '
         'bytecodes of the library, or at each line of the first thread; each thread must see exactly what it '
         'sees running alone in the main thread. Non-trivial: more than two '
         'preemptive switches and subscribers called.',
    timing=True,
    assumptions=['threads use objects of their own, but common classes'])
