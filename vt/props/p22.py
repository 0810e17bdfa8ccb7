# -*- coding: utf-8 -*-
import functools

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same
from vt.props.p10 import snap

NAMES = ['a', 'b', 'c', 'f', 'g']
# names which refer to values that are no nodes
LEAVES = ['v', 'w']
VALUES = ['none', 'dict', 'list', 'text', 'zero', 'false', 'type', 'full']
MAKE = {'none': lambda: None, 'dict': dict, 'list': list, 'text': str,
        'zero': int, 'false': bool, 'type': lambda: dict,
        'full': lambda: {'a': 1}}
OUTER = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
         'Attributes', 'Order', 'AsAttrAccess', 'UnicodeAware', 'Events']


class Fault(Exception):
    pass


class Abort(BaseException):
    pass


@functools.lru_cache(None)
def faulty_storage():
    from odict import odict

    class Storage(odict):
        """Raises on reading one key, or at some read of all storages."""
        fault = None
        countdown = None
        abort = False

        def __getitem__(self, key):
            if Storage.countdown is not None:
                Storage.countdown -= 1
                if Storage.countdown == 0:
                    raise Abort(key) if Storage.abort else Fault(key)
            if self.fault is not None and key == self.fault[0]:
                raise self.fault[1]
            return odict.__getitem__(self, key)
    return Storage


def storage_of(self):
    res = self.__dict__.get('faulty_storage')
    if res is None:
        res = self.__dict__['faulty_storage'] = faulty_storage()()
    return res


STORAGE = property(storage_of)


def never(self):
    return False


def cases(tier):
    name = st.sampled_from(NAMES)
    path = st.lists(name, max_size=4)
    node = gen.st.integers(0, 40)
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(OUTER), max_size=3, unique=True),
        'paths': st.lists(st.lists(name, min_size=1, max_size=4),
                          min_size=3, max_size=12),
        'plain': st.sampled_from([0, 0, 3, 5]),
        'falsy': st.sampled_from([0, 0, 1, 2]),
        'deep': gen.one_of(st.just(0), st.just(0), st.just(0), st.just(0),
                           st.just(0), st.just(0), st.integers(5, 40)),
        'fallbacks': st.lists(st.tuples(
            node, st.sampled_from(['f', 'f', 'g', 'a', 'zz'])).map(list),
            min_size=1, max_size=5),
        'values': st.one_of(st.just([]), st.lists(st.tuples(
            node, st.sampled_from(LEAVES), st.sampled_from(VALUES)).map(list),
            min_size=2, max_size=8)),
        'ops': gen.ops(
            (3, gen.op('read', node, st.sampled_from(LEAVES),
                       st.integers(0, 2))),
            (8, gen.op('lookup', node, path)),
            (6, gen.op('read', node, name, st.integers(0, 2))),
            (2, gen.op('key', node, st.sampled_from(
                ['f', 'g', 'a', 'zz', None]))),
            (2, gen.op('add', node, name)),
            (2, gen.op('remove', node)),
            (2, gen.op('fault', node, name, node, name,
                       st.sampled_from(['Fault', 'ValueError', 'KeyError',
                                        'RuntimeError']))),
            (1, gen.op('all', name)),
            min_size=3, max_size=gen.size(tier, 15, 40)),
    })


class Model(object):
    """A node of the reference tree."""

    def __init__(self, name, parent):
        self.name = name
        self.parent = parent
        self.children = {}
        self.key = None
        self.real = None
        self.aware = True

    @property
    def path(self):
        res = []
        node = self
        while node is not None:
            res.insert(0, node.name)
            node = node.parent
        return res

    def walk(self):
        res = [self]
        for child in self.children.values():
            if isinstance(child, Model):
                res.extend(child.walk())
        return res


def substitute(start, key, trace):
    """The documented search, iteratively; None if nothing is found."""
    path = start.path + [key]
    node = start
    visited = []
    while node.parent is not None:
        parent = node.parent
        if not parent.key or any(node is x for x in visited):
            node = parent
            continue
        visited.append(node)
        if parent.key not in parent.children:
            trace.add('dangling')
            node = parent
            continue
        node = parent.children[parent.key]
        trace.add('followed')
        names = path[len(node.path):]
        while names and names[0] in node.children:
            node = node.children[names.pop(0)]
        if not names:
            return node
        trace.add('continued')
    return None


def lookup(node, key, trace):
    if key in node.children:
        return node.children[key]
    if not node.aware:
        return None
    return substitute(node, key, trace)


class Value(object):
    """A value in the reference tree which is no node."""

    def __init__(self, real):
        self.real = real


class Driver(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        flags = case['flags'] + ['Fallback']
        if case['values']:
            # what rejects or expects nodes
            flags = [x for x in flags
                     if x not in ('NodeChildValidate', 'Lifecycle')]
        flags = classes.normalize(flags)
        base = classes.build('Composed', tuple(flags + ['OdictStorage']),
                             (('storage', STORAGE),))
        # nodes may be false
        falsy = classes.build('Falsy', tuple(flags + ['OdictStorage']),
                              (('storage', STORAGE), ('__bool__', never)))
        self.classes = [falsy if case['falsy'] == 2 else base,
                        falsy if case['falsy'] else base]
        self.plain = case['plain']
        self.count = 0
        self.root = self.new('root', None)
        for path in case['paths']:
            node = self.root
            for name in path:
                if name not in node.children:
                    self.put(node, name)
                node = node.children[name]
        for i, key in case['fallbacks']:
            self.do_key(i, key)
        for i, name, value in case['values']:
            node = self.pick(i)
            if node.aware:
                value = Value(MAKE[value]())
                node.real[name] = value.real
                node.children[name] = value
        self.trace = set()
        self.found = 0
        self.deepest = self.root
        if case.get('deep'):
            self.deep(case['deep'])

    def deep(self, count):
        """Each level has an empty fallback, except for the topmost one."""
        self.plain = 0
        node = self.root
        names = ['level%d' % i for i in range(count)]
        for name in names:
            if 'f' not in node.children:
                self.put(node, 'f')
            if node.aware:
                node.key = node.real.fallback_key = 'f'
            self.put(node, name)
            node = node.children[name]
        self.deepest = node
        node = self.root.children['f']
        if isinstance(node, Model) and not node.children:
            # it stands for the first level
            for name in names[1:]:
                self.put(node, name)
                node = node.children[name]
            self.put(node, 'found')
        self.ctx.label('deep')

    def new(self, name, parent):
        res = Model(name, parent)
        self.count += 1
        if self.plain and parent is not None and not self.count % self.plain:
            # a node which knows nothing about fallbacks
            res.real = classes.shipped('OrderedNode')(name=name)
            res.aware = False
        else:
            res.real = self.classes[self.count % 2](name=name)
        return res

    def put(self, node, name):
        child = self.new(name, node)
        node.real[name] = child.real
        node.children[name] = child

    def pick(self, i):
        return gen.pick(self.root.walk(), i)

    def expect(self, node, name, how=0):
        want = lookup(node, name, self.trace)
        if want is None:
            if how != 1:
                e = raises(KeyError, node.real.__getitem__, name)
                eq(e.args, (name,), 'KeyError')
            if how != 0:
                d = object()
                same(node.real.get(name, d), d, 'get() of missing')
        else:
            if how != 1:
                same(node.real[name], want.real,
                     '%r[%r]' % ('/'.join(node.path), name))
            if how != 0:
                same(node.real.get(name), want.real,
                     '%r.get(%r)' % ('/'.join(node.path), name))
            if name not in node.children:
                self.found += 1
                if isinstance(want, Value):
                    self.trace.add('value')
        return want

    def do_lookup(self, i, path):
        node = self.pick(i)
        for name in path:
            node = self.expect(node, name)
            if node is None:
                break

    def do_read(self, i, name, how):
        self.expect(self.pick(i), name, how)

    def do_all(self, name):
        for node in self.root.walk()[:20]:
            self.expect(node, name, 2)

    def do_key(self, i, key):
        node = self.pick(i)
        if node.aware:
            node.key = key
            node.real.fallback_key = key

    def do_add(self, i, name):
        node = self.pick(i)
        if name not in node.children and len(node.path) < 6:
            self.put(node, name)

    def do_remove(self, i):
        node = self.pick(i)
        if node.parent is not None:
            if i % 2:
                del node.parent.real[node.name]
            else:
                same(node.parent.real.detach(node.name), node.real,
                     'detached')
            del node.parent.children[node.name]

    def do_fault(self, i, name, j, fname, exc):
        """A storage fails within a search."""
        node, broken = self.pick(i), self.pick(j)
        if not broken.aware:
            return
        storage = broken.real.storage
        types = {'Fault': Fault, 'ValueError': ValueError,
                 'KeyError': KeyError, 'RuntimeError': RuntimeError}
        storage.fault = (fname, types[exc](fname))
        try:
            node.real[name]
        except types[exc] as e:
            if e is storage.fault[1]:
                self.ctx.label('fault')
        except KeyError as e:
            eq(e.args, (name,), 'KeyError')
        finally:
            storage.fault = None
        self.expect(node, name)


def run(case, ctx):
    driver = Driver(case, ctx)
    for op in case['ops']:
        reading = op[0] in ('lookup', 'read', 'all', 'fault')
        before = snap(driver.root.real) if reading else None
        getattr(driver, 'do_' + op[0])(*op[1:])
        if reading:
            eq(snap(driver.root.real), before, 'tree after ' + op[0])
    for node in driver.root.walk():
        for name, child in node.children.items():
            same(node.real[name], child.real, 'existing child')
            if isinstance(child, Model):
                same(child.real.parent, node.real, 'parent of child')
    for name in NAMES + LEAVES:
        driver.do_all(name)
    node = driver.deepest
    while node.parent is not None and node.name in node.parent.children:
        driver.expect(node, 'found')
        driver.expect(node, 'missing')
        node = node.parent
    ctx.label(*driver.trace)
    ctx.hit('followed' in driver.trace and driver.found > 0)
    if 'continued' in driver.trace:
        ctx.label('searched-on')


# ---------------------------------------------------------------------------
# every lookup in one tree

def table_cases(tier):
    name = st.sampled_from(NAMES[1:])
    return st.fixed_dictionaries({
        'flags': st.just([]), 'plain': st.just(0),
        'falsy': st.sampled_from([0, 1]),
        'values': st.lists(st.tuples(
            st.integers(0, 30), st.sampled_from(LEAVES),
            st.sampled_from(VALUES)).map(list), max_size=12),
        'paths': st.lists(st.lists(name, min_size=1, max_size=4),
                          min_size=6, max_size=20),
        'fallbacks': st.lists(st.tuples(
            st.integers(0, 30), st.sampled_from(['f', 'g', 'b'])).map(list),
            min_size=2, max_size=8)})


def run_table(case, ctx):
    driver = Driver(case, ctx)
    before = snap(driver.root.real)
    for _ in range(2):
        for node in driver.root.walk():
            for name in NAMES + LEAVES:
                driver.expect(node, name)
    eq(snap(driver.root.real), before, 'tree after lookups')
    ctx.label(*driver.trace)
    ctx.hit('continued' in driver.trace and driver.found > 2)


def run_faults(case, ctx):
    """Each read within some of the searches fails."""
    driver = Driver(case, ctx)
    storage = faulty_storage()
    targets = []
    for node in driver.root.walk():
        for name in NAMES + LEAVES:
            found = lookup(node, name, driver.trace)
            if node.aware and name not in node.children and found:
                targets.append((node, name))
    for node, name in targets[case['shift'] % 5::5][:4]:
        for n in range(1, 40):
            storage.countdown = n
            storage.abort = (n + case['shift']) % 2
            try:
                got = node.real[name]
            except (Fault, Abort):
                ctx.label('fault')
            else:
                same(got, lookup(node, name, driver.trace).real, 'lookup')
                break
            finally:
                storage.countdown = None
            driver.expect(node, name)
        driver.expect(node, name, 2)
    ctx.label(*driver.trace)
    ctx.hit(len(targets) > 1)


def fault_cases(tier):
    return table_cases(tier).flatmap(lambda case: st.integers(0, 9).map(
        lambda i: dict(case, shift=i)))


PROP = Prop(
    'P22', [Sub('histories', cases, run, 11200),
            Sub('tables', table_cases, run_table, 7200),
            Sub('faults', fault_cases, run_faults, 4800)],
    rule='Trees up to depth 5 over five names with fallback keys (nested, '
         'overlapping, dangling) on any node, nodes without the behavior in '
         'between, values which are no nodes (empty ones too); lookups from any node in any order, mixed with structural '
         'changes, changed fallback keys and storages failing within a '
         'search (at each read of some searches); each result compared with an iterative reference search. '
         'Non-trivial: a fallback was followed and a substitute found (or, '
         'for whole tables, the search went on to another parent).',
    assumptions=['fallback keys are true values and refer to nodes; values '
                 'which are no nodes are looked up, not searched'])
