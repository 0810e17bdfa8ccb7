# -*- coding: utf-8 -*-
import copy
import functools

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same
from vt.gen import dk

EXTRA = ['NodeChildValidate', 'Nodespaces', 'Adopt', 'Attributes', 'Order',
         'Cache', 'AsAttrAccess', 'Events', 'Lifecycle']


def cases(tier):
    k = gen.idx
    b = st.booleans()
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(EXTRA), max_size=4, unique=True),
        'odict': b,
        'reads': gen.reads(),
        'texts': st.lists(gen.names(), min_size=1, max_size=5, unique=True),
        'odd': st.lists(gen.one_of(
            st.integers(-2, 2), st.booleans(),
            st.sampled_from(['ff', 'c3', 'fffe', 'e282', '80']).map(
                lambda x: {'b': x})), max_size=2),
        'ops': gen.ops(
            (6, gen.op('set', k, b, st.integers(0, 15))),
            (3, gen.op('del', k, b)),
            (2, gen.op('pop', k, b)),
            (2, gen.op('get', k, b)),
            (2, gen.op('setdefault', k, b, st.integers(0, 15))),
            (2, gen.op('update', st.lists(st.tuples(
                k, b, st.integers(0, 15)).map(list), max_size=3))),
            (1, gen.op('detach', k, b)),
            (1, gen.op('clear')),
            (3, gen.op('insert', k, b, st.integers(0, 3), k)),
            (1, gen.op('swap', k, k)),
            min_size=2, max_size=gen.size(tier, 16, 40)),
    })


def as_bytes(key):
    return key.encode('utf-8') if isinstance(key, str) else key


def as_text(value):
    if isinstance(value, bytes):
        try:
            return value.decode('utf-8')
        except UnicodeDecodeError:
            return value
    return value


class World(object):

    def __init__(self, case, ctx):
        flags = [x for x in case['flags'] if case['odict'] or x != 'Order']
        self.raw = 'NodeChildValidate' not in flags
        self.flags = flags
        # outermost: all others see texts
        self.cls = classes.build(
            'Unicode', ('UnicodeAware',) + tuple(classes.normalize(flags))
            + ('OdictStorage' if case['odict'] else 'DictStorage',))
        self.node = self.cls(name='root')
        self.keys = case['texts'] + [dk(x) for x in case['odd']]
        self.adopts = 'Adopt' in flags
        self.ordered = case['odict']
        self.model = {}
        self.former = []
        self.ctx = ctx
        self.converted = 0
        self.kept = []

    def key(self, k, encoded):
        """Key as given, key as it is known."""
        key = self.keys[k % len(self.keys)]
        given = as_bytes(key) if encoded else key
        if isinstance(given, bytes):
            self.ctx.label('bytes key')
        known = as_text(given)
        if known is not given and isinstance(given, bytes):
            self.converted += 1
        return given, known

    def value(self, v, given=None):
        if v == 4:
            return self.cls(name=given)
        if v == 8 and self.former and not any(
                x is self.former[-1] for x in self.model.values()):
            return self.former[-1]
        if not self.raw or v % 4 == 0:
            return self.cls()
        res = [None, 'text', b'text', 'täxt'.encode('utf-8'), b'\xff\xfe', 1,
               '', b'', None, 1.5, dict, b'a', [b'a', 'b'], (b'a',),
               {b'a': b'b'}, bytearray(b'a')][v]
        if v > 11:
            self.kept.append((res, copy.deepcopy(res)))
        return res

    def step(self, op):
        what, args = op[0], op[1:]
        node, model = self.node, self.model
        if what == 'set':
            given, known = self.key(*args[:2])
            value = self.value(args[2], given)
            node[given] = value
            self.put(known, value)
        elif what == 'update':
            items = [(self.key(*x[:2]), self.value(
                0 if x[2] == 8 else x[2], self.key(*x[:2])[0]))
                for x in args[0]]
            node.update([(x[0][0], x[1]) for x in items])
            for (given, known), value in items:
                self.put(known, value)
        elif what == 'setdefault':
            given, known = self.key(*args[:2])
            value = self.value(args[2], given)
            got = node.setdefault(given, value)
            if known not in model:
                self.put(known, value)
                got = as_text(got)
            self.same(got, model[known], 'setdefault')
        elif what == 'clear':
            node.clear()
            model.clear()
        elif what == 'insert':
            self.insert(*args)
        elif what == 'swap':
            self.swap(*args)
        else:
            given, known = self.key(*args)
            if what == 'del':
                func = node.__delitem__
            elif what == 'get':
                self.same(node.get(given, self), model.get(known, self),
                          'get')
                return
            else:
                func = getattr(node, what)
            if known in model:
                got, want = func(given), model.pop(known)
                if isinstance(want, self.cls):
                    self.former.append(want)
                if what != 'del':
                    self.same(got, want, what)
            else:
                raises(KeyError, func, given)

    def named(self):
        """Children which have the name of their key."""
        return [k for k, v in self.model.items() if isinstance(v, self.cls)
                and v.__name__ is not None and as_text(v.__name__) == k]

    def insert(self, k, encoded, how, ref):
        node, model = self.node, self.model
        known_refs, keys = self.named(), list(model)
        if 'Order' not in self.flags:
            return
        if how < 2 and keys and keys[-how] not in known_refs:
            return
        if how > 1 and not known_refs:
            return
        given, known = self.key(k, encoded)
        if given is None:
            return
        value = self.cls(name=given)
        if how < 2:
            at = 0 if how == 0 else len(keys)
            func = node.insertfirst if how == 0 else node.insertlast
            todo = functools.partial(func, value)
        else:
            key = known_refs[ref % len(known_refs)]
            at = keys.index(key) + how - 2
            func = node.insertbefore if how == 2 else node.insertafter
            todo = functools.partial(func, value, model[key])
        if known in model:
            raises(ValueError, todo)
            return
        todo()
        self.ctx.label('insert')
        items = list(model.items())
        model.clear()
        model.update(items[:at])
        self.put(known, value)
        model.update(items[at:])

    def swap(self, a, b):
        if 'Order' not in self.flags:
            return
        named, keys = self.named(), list(self.model)
        a, b = named[a % len(named)] if named else None, \
            named[b % len(named)] if named else None
        if a == b:
            return
        self.node.swap(self.model[a], self.model[b])
        a, b = keys.index(a), keys.index(b)
        keys[a], keys[b] = keys[b], keys[a]
        items = [(k, self.model[k]) for k in keys]
        self.model.clear()
        self.model.update(items)

    def put(self, known, value):
        self.model[known] = as_text(value)
        if as_text(value) is not value:
            self.ctx.label('bytes value')
        if self.adopts and isinstance(value, self.cls):
            eq(value.__name__, known, 'name of child')
            same(type(value.__name__), type(known), 'type of name of child')
            same(value.__parent__, self.node, 'parent of child')

    def same(self, got, want, what):
        if isinstance(want, (str, bytes)):
            eq((type(got), got), (type(want), want), what)
        else:
            same(got, want, what)

    def check(self):
        node, model = self.node, self.model
        keys = list(node.keys())
        if self.ordered:
            eq(keys, list(model), 'keys')
        eq((len(keys), set(keys)), (len(model), set(model)), 'keys')
        for key in keys:
            check(as_text(key) is key, 'key %r was not decoded', key)
        eq(len(node), len(model), 'length')
        for key, value in node.items():
            self.same(value, model[key], 'item %r' % (key,))
        for key in self.keys:
            for given in (key, as_bytes(key)):
                known = as_text(given)
                eq(given in node, known in model, '%r in node' % (given,))
                eq(node.has_key(given), known in model,
                   'has_key(%r)' % (given,))
                if known in model:
                    self.same(node[given], model[known],
                              'node[%r]' % (given,))
                else:
                    raises(KeyError, node.__getitem__, given)
        for value, was in self.kept:
            eq(value, was, 'value after it was set')
        stored = list(node.storage.keys())
        for key in stored:
            check(as_text(key) is key, 'key %r is stored', key)


def run(case, ctx):
    world = World(case, ctx)
    for i, op in enumerate(case['ops']):
        world.step(op)
        if gen.due(case, i):
            world.check()
    world.check()
    ctx.hit(world.converted >= 2 and len(case['ops']) >= 3)


PROP = Prop(
    'P39', [Sub('histories', cases, run, 30000)],
    rule='Histories of mapping operations on nodes which are unicode aware, '
         'with up to four other behaviors, where each key is given as text '
         'or encoded, and values are nodes, texts, byte strings and others; '
         'compared with a dictionary of texts after each or only some steps, read by both '
         'forms of each key. Non-trivial: at least two encoded keys.',
    assumptions=['setdefault may return an encoded default as given',
                 'byte strings which are not UTF-8 stay as they are (the '
                 'coding is soft)'])
