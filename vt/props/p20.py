# -*- coding: utf-8 -*-
import functools

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
         'Attributes', 'Cache', 'VolatileStorageInvalidate', 'AsAttrAccess',
         'UnicodeAware', 'Events', 'GetattrChildren']
UNKNOWN = ['unknown', 'zz', '~', '0x']
EXCS = [ValueError, RuntimeError, LookupError, TypeError, KeyError]


def falsy():
    """A node which is false."""
    base = classes.shipped('BaseNode')
    return type('Falsy', (base,), {
        '__bool__': lambda self: False, '__nonzero__': lambda self: False})


class Boom(Exception):
    pass


class Callable(object):
    """Factories are any callables, even if they are false."""

    def __init__(self, func):
        self.call = self.func = func

    def __call__(self):
        return self.func()

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Callable)

    __hash__ = None


def cases(tier):
    k = gen.idx
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=4, unique=True),
        'odict': st.booleans(),
        'where': st.sampled_from(['class', 'subclass', 'instance']),
        'keys': gen.pool(gen.anykeys(), max_size=6),
        'nested': st.booleans(),
        'falsy': st.booleans(),
        'form': st.sampled_from(['function', 'function', 'partial', 'method',
                                 'false']),
        'many': gen.one_of([st.just(0)] * 7 + [st.integers(8, 40)]),
        # factories give nodes which have a name and a parent already
        'placed': st.booleans(),
        'instances': st.integers(1, 3),
        'ops': gen.ops(
            (6, gen.op('access', k)), (2, gen.op('get', k)),
            (1, gen.op('contains', k)), (1, gen.op('values')),
            (1, gen.op('items')), (2, gen.op('setdefault', k)),
            (3, gen.op('set', k)), (3, gen.op('del', k)),
            (2, gen.op('pop', k)), (1, gen.op('popitem')),
            (2, gen.op('inval', k)), (1, gen.op('invalall')),
            (2, gen.op('unknown', k)), (2, gen.op('failing', k, k)),
            (1, gen.op('update', st.lists(k, max_size=3))),
            (1, gen.op('deep', k, k)),
            min_size=6, max_size=gen.size(tier, 25, 60)),
        'which': st.lists(st.integers(0, 2), min_size=1, max_size=8),
    })


class Factories(object):
    """Counts the calls per instance of node and key."""

    def __init__(self):
        self.made = []
        self.fail = None
        self.nested = None
        self.placed = None
        self.form = 'function'
        self.child = classes.shipped('BaseNode')

    def make(self, key):
        def factory():
            if self.fail is not None:
                raise self.fail
            res = self.new()
            if self.placed is not None:
                res.__name__ = 'elsewhere'
                res.__parent__ = self.placed
            self.made.append((key, res))
            return res
        if self.form == 'partial':
            return functools.partial(factory)
        if self.form == 'method':
            return Callable(factory).call
        if self.form == 'false':
            return Callable(factory)
        return factory

    def new(self):
        if self.nested is not None:
            return self.nested()
        return self.child()


class Lazy(object):
    """One factory driven node and its model."""

    def __init__(self, node, keys, log, ctx, adopts):
        self.node = node
        self.keys = keys
        self.log = log
        self.ctx = ctx
        self.adopts = adopts
        self.loaded = {}
        self.calls = 0
        self.was = set()

    def key(self, i):
        return self.keys[i % len(self.keys)]

    def want(self, key, got, before, what):
        """A read of key gave got; before is the number of calls before."""
        new = self.log.made[before:]
        if key in self.loaded:
            same(got, self.loaded[key], what)
            eq(len(new), 0, 'factory calls of ' + what)
        else:
            eq([x[0] for x in new], [key], 'factory calls of ' + what)
            same(got, new[0][1], what)
            self.loaded[key] = got
            if key in self.was:
                self.ctx.hit()
                self.ctx.label('created-again')
        if self.adopts:
            same(got.parent, self.node, 'parent of child')
            eq(got.name, key, 'name of child')

    def step(self, op):
        before = len(self.log.made)
        getattr(self, 'do_' + op[0])(before, *op[1:])
        self.ctx.label(op[0])
        count = len(self.log.made)
        eq(list(self.node), self.keys, 'iter()')
        eq(list(self.node.keys()), self.keys, 'keys()')
        eq(list(self.node.iterkeys()), self.keys, 'iterkeys()')
        eq(len(self.node), len(self.keys), 'len()')
        eq(len(self.log.made), count, 'factory calls of listing')

    def do_access(self, before, k):
        key = self.key(k)
        self.want(key, self.node[key], before, 'node[%r]' % (key,))

    def do_get(self, before, k):
        key = self.key(k)
        self.want(key, self.node.get(key), before, 'get(%r)' % (key,))

    def do_contains(self, before, k):
        key = self.key(k)
        same(key in self.node, True, '%r in node' % (key,))
        if len(self.log.made) > before:
            self.want(key, self.log.made[-1][1], before,
                      '%r in node' % (key,))

    def do_values(self, before):
        got = list(self.node.values())
        self.many(got, before, 'values()')

    def do_items(self, before):
        got = list(self.node.items())
        eq([x[0] for x in got], self.keys, 'keys of items()')
        self.many([x[1] for x in got], before, 'items()')

    def many(self, got, before, what):
        eq(len(got), len(self.keys), 'number of ' + what)
        missing = [key for key in self.keys if key not in self.loaded]
        new = self.log.made[before:]
        eq([x[0] for x in new], missing, 'factory calls of ' + what)
        for key, child in new:
            self.loaded[key] = child
        for key, child in zip(self.keys, got):
            same(child, self.loaded[key], what)

    def do_setdefault(self, before, k):
        key = self.key(k)
        other = self.log.child()
        self.want(key, self.node.setdefault(key, other), before,
                  'setdefault(%r)' % (key,))

    def do_set(self, before, k):
        key = self.key(k)
        child = self.log.child()
        self.node[key] = child
        self.loaded[key] = child
        eq(len(self.log.made), before, 'factory calls of set')
        same(self.node[key], child, 'assigned child')
        eq(len(self.log.made), before, 'factory calls of set')

    def do_update(self, before, ks):
        data = dict((self.key(k), classes.shipped('OrderedNode')())
                    for k in ks)
        self.node.update(data)
        self.loaded.update(data)
        eq(len(self.log.made), before, 'factory calls of update()')
        for key, child in data.items():
            same(self.node[key], child, 'assigned child')

    def do_del(self, before, k):
        key = self.key(k)
        if key in self.loaded:
            del self.node[key]
            del self.loaded[key]
            self.was.add(key)
            eq(len(self.log.made), before, 'factory calls of del')

    def do_pop(self, before, k):
        key = self.key(k)
        self.want(key, self.node.pop(key), before, 'pop(%r)' % (key,))
        del self.loaded[key]
        self.was.add(key)

    def do_popitem(self, before):
        key, value = self.node.popitem()
        eq(key, self.keys[-1], 'popitem() key')
        self.want(key, value, before, 'popitem()')
        del self.loaded[key]
        self.was.add(key)

    def do_inval(self, before, k):
        if hasattr(self.node, 'invalidate'):
            key = self.key(k)
            self.node.invalidate(key)
            if self.loaded.pop(key, None) is not None:
                self.was.add(key)
            eq(len(self.log.made), before, 'factory calls of invalidate()')

    def do_invalall(self, before):
        if hasattr(self.node, 'invalidate'):
            self.node.invalidate()
            self.was.update(self.loaded)
            self.loaded.clear()
            eq(len(self.log.made), before, 'factory calls of invalidate()')

    def do_unknown(self, before, k):
        key = UNKNOWN[k % len(UNKNOWN)]
        if key not in self.keys:
            e = raises(KeyError, self.node.__getitem__, key)
            eq(e.args, (key,), 'KeyError')
            same(self.node.get(key), None, 'get() of unknown key')
            same(key in self.node, False, 'unknown key in node')
            raises(KeyError, self.node.__delitem__, key)
            raises(KeyError, self.node.pop, key)
            eq(len(self.log.made), before, 'factory calls of unknown key')

    def do_failing(self, before, k, i):
        """A factory which raises leaves nothing behind."""
        key = self.key(k)
        if key in self.loaded:
            return
        self.log.fail = Boom() if i % 2 else EXCS[i // 2 % len(EXCS)]()
        e = raises(type(self.log.fail), self.node.__getitem__, key)
        same(e, self.log.fail, 'exception of factory')
        self.log.fail = None
        self.do_access(before, k)

    def do_deep(self, before, k, j):
        """Children of children are factory driven, too."""
        key = self.key(k)
        child = self.node[key]
        self.want(key, child, before, 'node[%r]' % (key,))
        if self.log.nested is not None and getattr(child, 'factories', None):
            sub = gen.pick(self.keys, j)
            count = len(self.log.made)
            got = child[sub]
            same(child[sub], got, 'child of child')
            check(len(self.log.made) - count <= 1, 'created twice')
            if self.adopts:
                eq(got.path, [self.node.name, key, sub], 'path')
            self.ctx.label('nested')


def run(case, ctx):
    from odict import odict
    flags = list(case['flags'])
    names = classes.normalize(flags + ['Adopt'])
    if 'Cache' in names and 'Invalidate' in names:
        # documented for storages which know all their keys
        names.remove('Invalidate')
        names.append('VolatileStorageInvalidate')
        names = classes.normalize(names)
    names = names[:-2] + ['ChildFactory'] + names[-2:] + [
        'OdictStorage' if case['odict'] else 'DictStorage']
    base = classes.build('Lazy', tuple(names))
    keys = [gen.dk(k) for k in case['keys'] if k is not None]
    keys.extend('many%d' % i for i in range(case['many']))
    logs = Factories()
    logs.form = case['form']
    ctx.label(case['form'])
    if case['placed']:
        logs.placed = classes.shipped('BaseNode')(name='other')
        ctx.label('placed')
    if case['falsy']:
        logs.child = falsy()
    factories = odict((key, logs.make(key)) for key in keys)
    cls = type('LazySub', (base,), {})
    if case['where'] != 'instance':
        cls.factories = factories
        if case['where'] == 'subclass':
            cls = type('LazySubSub', (cls,), {})
    if case['nested'] and case['where'] != 'instance':
        logs.nested = cls
    lazies = []
    for i in range(case['instances']):
        node = cls(name='node%d' % i)
        if case['where'] == 'instance':
            node.factories = factories
        lazies.append(Lazy(node, keys, logs, ctx, True))
    eq(logs.made, [], 'factory calls on creation')
    for i, op in enumerate(case['ops']):
        lazy = lazies[case['which'][i % len(case['which'])] % len(lazies)]
        lazy.step(op)
        for other in lazies:
            for key, child in other.loaded.items():
                same(child.parent, other.node, 'parent of child')
    for lazy in lazies:
        for i in range(len(keys)):
            lazy.step(['access', i])


# ---------------------------------------------------------------------------
# factories which use the tree

def within_cases(tier):
    k = gen.idx
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=3, unique=True),
        'odict': st.booleans(),
        'size': st.integers(2, 6),
        'instances': st.integers(1, 2),
        # what each factory reads before it gives its child
        'needs': st.lists(st.lists(st.tuples(
            k, k, st.sampled_from(['item', 'get', 'in', 'keys'])).map(list),
            max_size=3), min_size=12, max_size=12),
        # how often each factory fails before or after it reads
        'fails': st.lists(st.sampled_from([0] * 6 + [1, 2, -1]),
                          min_size=12, max_size=12),
        'ops': st.lists(st.tuples(st.sampled_from(
            ['item', 'item', 'get', 'in', 'del', 'set', 'pop', 'inval',
             'invalall']), k, k).map(list), min_size=3,
            max_size=gen.size(tier, 14, 40))})


class Within(object):

    def __init__(self, case, ctx):
        from odict import odict
        self.case, self.ctx = case, ctx
        names = classes.normalize(case['flags'] + ['Adopt'])
        if 'Cache' in names and 'Invalidate' in names:
            names.remove('Invalidate')
            names.append('VolatileStorageInvalidate')
            names = classes.normalize(names)
        names = names[:-2] + ['ChildFactory'] + names[-2:] + [
            'OdictStorage' if case['odict'] else 'DictStorage']
        self.cls = classes.build('Within', tuple(names))
        self.child = classes.shipped('BaseNode')
        self.size = case['size']
        self.keys = ['k%d' % i for i in range(self.size)]
        self.nodes = []
        self.loaded, self.real, self.log = {}, {}, []
        self.fails = list(case['fails']), list(case['fails'])
        for n in range(case['instances']):
            node = self.cls(name='node%d' % n)
            node.factories = odict(
                (key, functools.partial(self.factory, n, i))
                for i, key in enumerate(self.keys))
            self.nodes.append(node)

    def needs(self, n, i):
        """Reads of factory i of node n, always of later ones."""
        at = n * self.size + i
        count = len(self.nodes) * self.size
        for a, b, how in self.case['needs'][at]:
            if at + 1 < count:
                m = at + 1 + a % (count - at - 1)
                yield m // self.size, m % self.size, how

    def failing(self, which, n, i, early):
        fails = self.fails[which]
        at = n * self.size + i
        if fails[at] and (fails[at] < 0) == early:
            fails[at] += 1 if early else -1
            return True

    def factory(self, n, i):
        self.log.append((n, i))
        if self.failing(0, n, i, True):
            raise Boom(n, i)
        for m, j, how in self.needs(n, i):
            node, key = self.nodes[m], self.keys[j]
            if how == 'item':
                got = node[key]
            elif how == 'get':
                got = node.get(key)
            elif how == 'in':
                check(key in node, 'missing within factory')
                continue
            else:
                eq(list(node.keys()), self.keys, 'keys within factory')
                continue
            same(got, self.real.get((m, j)), 'child within factory')
            same(got.parent, node, 'parent within factory')
        if self.failing(0, n, i, False):
            raise Boom(n, i)
        res = self.child()
        self.real[n, i] = res
        return res

    def expect(self, n, i, log):
        if (n, i) in self.loaded:
            return
        log.append((n, i))
        if self.failing(1, n, i, True):
            raise Boom(n, i)
        for m, j, how in self.needs(n, i):
            if how != 'keys':
                self.expect(m, j, log)
        if self.failing(1, n, i, False):
            raise Boom(n, i)
        self.loaded[n, i] = True

    def step(self, op):
        what, a, b = op
        n, i = a % len(self.nodes), b % self.size
        node, key = self.nodes[n], self.keys[i]
        before, log, failed, want = len(self.log), [], None, None
        if what in ('inval', 'invalall') and not hasattr(node, 'invalidate'):
            return
        if what == 'set':
            self.real[n, i] = child = self.child()
            node[key] = child
            self.loaded[n, i] = True
        elif what == 'inval':
            node.invalidate(key)
            self.loaded.pop((n, i), None)
        elif what == 'invalall':
            node.invalidate()
            for j in range(self.size):
                self.loaded.pop((n, j), None)
        elif what == 'del':
            if (n, i) not in self.loaded:
                return
            del node[key]
            self.loaded.pop((n, i))
        else:
            try:
                self.expect(n, i, log)
            except Boom as e:
                want = e.args
                self.ctx.label('failed')
            try:
                if what == 'in':
                    got = key in node
                else:
                    got = {'item': node.__getitem__, 'get': node.get,
                           'pop': node.pop}[what](key)
            except Boom as e:
                failed = e.args
            eq(failed, want, 'failing factory')
            if want is None:
                same(got, True if what == 'in' else self.real[n, i], what)
                if what == 'pop':
                    self.loaded.pop((n, i))
        eq(self.log[before:], log, 'factory calls of ' + what)
        if len(log) > 1:
            self.ctx.hit()
        for (m, j) in self.loaded:
            child = self.real[m, j]
            same(child.parent, self.nodes[m], 'parent')
            eq(child.name, self.keys[j], 'name')

    def end(self):
        before = len(self.log)
        for (m, j) in sorted(self.loaded):
            same(self.nodes[m][self.keys[j]], self.real[m, j], 'at the end')
        eq(self.log[before:], [], 'factory calls at the end')


def run_within(case, ctx):
    world = Within(case, ctx)
    for op in case['ops']:
        world.step(op)
    world.end()


PROP = Prop(
    'P20', [Sub('factories', cases, run, 19200),
            Sub('within', within_cases, run_within, 8000)],
    rule='Factory driven nodes (factories on class, base class or instance; '
         'optionally nested, cached, lifecycle aware etc.), histories of '
         'reads, writes, deletions, invalidations and failing factories on '
         'up to three instances; every factory call is recorded and '
         'compared. Non-trivial: a removed child was created again. Within: '
         'factories read other children of the same or another node, and '
         'may fail, before they give their child; all calls in order are '
         'those of the reference. Non-trivial: factories within factories.',
    assumptions=['deleting a child which was not created yet is not judged',
                 'only keys which have a factory are assigned'])
