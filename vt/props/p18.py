# -*- coding: utf-8 -*-
import functools

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, fail, raises, same

VALUES = [None, 0, '', False, 'text', [1], {}, 0.0, dict]
OUTER = ['Lifecycle', 'UnicodeAware', 'AsAttrAccess', 'Events', 'Fallback',
         'Adopt', 'NodeChildValidate', 'Nodespaces', 'Order']


class Source(object):
    """Backend of a node: counts the loads since the last reset."""

    def __init__(self):
        self.data = {}
        self.loaded = set()
        self.loads = 0

    def load(self, key):
        value = self.data[key]
        self.loads += 1
        if key in self.loaded:
            fail('%r was loaded again', key)
        self.loaded.add(key)
        return value

    def reset(self, key):
        self.loaded.discard(key)


@functools.lru_cache(None)
def make_class(outer, how):
    import node.behaviors as b
    from plumber import plumbing

    def __getitem__(self, key):
        return self.source.load(key)

    def __setitem__(self, key, value):
        self.source.data[key] = value
        self.source.reset(key)

    def __delitem__(self, key):
        del self.source.data[key]
        self.source.reset(key)

    def __iter__(self):
        return iter(list(self.source.data))
    dct = dict(__getitem__=__getitem__, __setitem__=__setitem__,
               __delitem__=__delitem__, __iter__=__iter__)
    if how == 'own':
        def invalidate(self, key=None):
            self.invalidated.append(key)
        dct['invalidate'] = invalidate
    elif how == 'volatile':
        dct['storage'] = property(lambda self: self.source.data)
    cls = type('Sourced', (object,), dct)
    inner = {'own': [], 'delete': ['Invalidate'],
             'volatile': ['VolatileStorageInvalidate']}[how]
    order = [x for x in classes.CANONICAL if x in outer]
    at = len([x for x in order if classes.CANONICAL.index(x)
              < classes.CANONICAL.index('Cache')])
    order[at:at] = ['Cache'] + inner
    return plumbing(*[getattr(b, x) for x in order + [
        'DefaultInit', 'Nodify']])(cls)


def cases(tier):
    k = gen.idx
    n = gen.size(tier, 25, 60)
    return st.fixed_dictionaries({
        'outer': st.lists(st.sampled_from(OUTER), max_size=3, unique=True),
        'how': st.sampled_from(['own', 'delete', 'volatile']),
        'nodes': st.booleans(),
        'keys': gen.pool(gen.anykeys(), max_size=4),
        'start': st.lists(st.tuples(k, k).map(list), min_size=1,
                          max_size=5),
        'ops': gen.ops(
            (8, gen.op('read', k)),
            (2, gen.op('get', k)),
            (1, gen.op('contains', k)),
            (1, gen.op('values')),
            (1, gen.op('items')),
            (4, gen.op('set', k, k)),
            (2, gen.op('del', k)),
            (2, gen.op('pop', k)),
            (1, gen.op('popitem')),
            (2, gen.op('setdefault', k, k)),
            (1, gen.op('update', st.lists(st.tuples(k, k).map(list),
                                          max_size=3))),
            (1, gen.op('clear')),
            (5, gen.op('ext', k, k)),
            (2, gen.op('extdel', k)),
            (6, gen.op('behind', k, k)),
            (5, gen.op('inval', k)),
            (1, gen.op('invalall')),
            min_size=8, max_size=n),
    })


class Driver(object):

    def __init__(self, case, ctx):
        outer = list(case['outer'])
        nodes = case['nodes'] or 'NodeChildValidate' in outer
        self.how = case['how']
        cls = make_class(frozenset(outer), self.how)
        self.node = cls(name='cached')
        self.source = self.node.source = Source()
        self.node.invalidated = []
        self.keys = [gen.dk(k) for k in case['keys']]
        self.make = (lambda i: classes.shipped('BaseNode')()) if nodes \
            else (lambda i: VALUES[i % len(VALUES)])
        self.cache = {}
        self.ctx = ctx
        self.stale = 0
        for k, v in case['start']:
            self.source.data[self.key(k)] = self.make(v)

    def key(self, i):
        return self.keys[i % len(self.keys)]

    def expected(self, key):
        """The value a read of key gives, the model caches it."""
        if key in self.cache:
            if self.source.data.get(key, self) is not self.cache[key]:
                self.stale += 1
            return self.cache[key]
        if key in self.source.data:
            self.cache[key] = self.source.data[key]
            return self.cache[key]
        raise KeyError(key)

    def forget(self, key):
        self.cache.pop(key, None)
        self.source.reset(key)

    def do_read(self, k):
        key = self.key(k)
        try:
            want = self.expected(key)
        except KeyError:
            e = raises(KeyError, self.node.__getitem__, key)
            eq(e.args, (key,), 'KeyError')
            self.ctx.label('failed-read')
            return
        same(self.node[key], want, 'node[%r]' % (key,))
        same(self.node[key], want, 'node[%r] again' % (key,))

    def do_get(self, k):
        key = self.key(k)
        d = object()
        got = self.node.get(key, d)
        try:
            same(got, self.expected(key), 'get(%r)' % (key,))
        except KeyError:
            same(got, d, 'get(%r) of missing' % (key,))

    def do_contains(self, k):
        key = self.key(k)
        got = key in self.node
        try:
            self.expected(key)
            same(got, True, '%r in node' % (key,))
        except KeyError:
            same(got, False, '%r in node' % (key,))

    def do_values(self):
        got = list(self.node.values())
        want = [self.expected(key) for key in self.source.data]
        eq(len(got), len(want), 'number of values()')
        check(all(a is b for a, b in zip(got, want)), 'values()')

    def do_items(self):
        got = list(self.node.items())
        want = [(key, self.expected(key)) for key in self.source.data]
        eq([x[0] for x in got], [x[0] for x in want], 'keys of items()')
        check(all(a[1] is b[1] for a, b in zip(got, want)), 'items()')

    def do_set(self, k, v):
        key, value = self.key(k), self.make(v)
        self.node[key] = value
        self.forget(key)
        same(self.source.data[key], value, 'source after set')

    def do_del(self, k):
        key = self.key(k)
        if key in self.source.data:
            del self.node[key]
            self.forget(key)
            check(key not in self.source.data, '%r in source after del', key)
        elif key not in self.cache:
            raises(KeyError, self.node.__delitem__, key)
            self.forget(key)

    def do_pop(self, k):
        key = self.key(k)
        if key in self.source.data:
            want = self.expected(key)
            same(self.node.pop(key), want, 'pop(%r)' % (key,))
            self.forget(key)
            check(key not in self.source.data, '%r in source after pop', key)

    def do_popitem(self):
        if self.source.data:
            key, value = self.node.popitem()
            same(value, self.expected_gone(key), 'popitem() value')
            self.forget(key)

    def expected_gone(self, key):
        return self.before[key]

    def do_setdefault(self, k, v):
        key, value = self.key(k), self.make(v)
        try:
            want = self.expected(key)
        except KeyError:
            want = value
            same(self.node.setdefault(key, value), want, 'setdefault()')
            same(self.source.data[key], value, 'source after setdefault')
            # the value may have been read back
            self.forget(key)
            return
        same(self.node.setdefault(key, value), want, 'setdefault()')

    def do_update(self, pairs):
        data = dict((self.key(k), self.make(v)) for k, v in pairs)
        self.node.update(data)
        for key, value in data.items():
            self.forget(key)
            same(self.source.data[key], value, 'source after update')

    def do_clear(self):
        keys = list(self.source.data)
        self.node.clear()
        for key in keys:
            self.forget(key)
        eq(self.source.data, {}, 'source after clear')

    def do_ext(self, k, v):
        """The source changes by itself."""
        self.source.data[self.key(k)] = self.make(v)

    def do_behind(self, k, v):
        """The source changes behind a cached child."""
        self.do_read(k)
        self.do_ext(k, v)
        self.do_read(k)
        self.do_get(k)

    def do_extdel(self, k):
        self.source.data.pop(self.key(k), None)

    def do_inval(self, k):
        key = self.key(k)
        if self.how == 'own':
            self.node.invalidate(key)
            eq(self.node.invalidated.pop(), key, 'invalidated key')
            self.forget(key)
        elif key in self.source.data:
            self.node.invalidate(key=key)
            self.forget(key)
            check(key not in self.source.data,
                  '%r in source after invalidate', key)
        else:
            raises(KeyError, self.node.invalidate, key)
            self.forget(key)
            self.ctx.label('inval-missing')

    def do_invalall(self):
        self.node.invalidate()
        if self.how == 'own':
            eq(self.node.invalidated.pop(), None, 'invalidated key')
        else:
            eq(self.source.data, {}, 'source after invalidate')
        for key in list(self.cache) + list(self.source.loaded):
            self.forget(key)

    def step(self, op):
        self.before = dict((key, self.cache.get(key, value))
                           for key, value in self.source.data.items())
        if op[0] in ('inval', 'invalall'):
            # invalidation may read the child again in order to delete it
            for key in [self.key(op[1])] if len(op) > 1 else self.keys:
                self.source.reset(key)
        getattr(self, 'do_' + op[0])(*op[1:])
        # iteration and length always reflect the source
        keys = list(self.source.data)
        eq(list(self.node), keys, 'iter()')
        eq(list(self.node.keys()), keys, 'keys()')
        eq(len(self.node), len(keys), 'len()')

    def finish(self):
        for i in range(len(self.keys)):
            self.do_read(i)


def run(case, ctx):
    driver = Driver(case, ctx)
    for op in case['ops']:
        driver.step(op)
        ctx.label(op[0])
    driver.finish()
    ctx.label(case['how'])
    if driver.stale:
        ctx.label('source-changed-behind-cache')
    ctx.hit(driver.stale > 0)


PROP = Prop(
    'P18', [Sub('cache', cases, run, 19200)],
    rule='Cache over a source which fails the check when a key is loaded a '
         'second time without a set, delete or invalidation in between; '
         'random histories of reads, mapping writes, changes of the source '
         'behind the cache and the three kinds of invalidation, with nodes '
         'and with false values, below up to three other behaviors. '
         'Non-trivial: a cached child was read after the source changed.')
