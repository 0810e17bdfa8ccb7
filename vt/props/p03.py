# -*- coding: utf-8 -*-
import uuid

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, eq, raises, same
from vt.mapmodel import MapDriver, map_ops

COMPOSED = {
    'Ordered': ['NodeChildValidate', 'Adopt', 'Order'],
    'OrderedRaw': ['Adopt', 'Order', 'AsAttrAccess'],
    'OrderedRef': ['NodeChildValidate', 'Adopt', 'Order', 'Reference'],
    'OrderedCached': ['NodeChildValidate', 'Adopt', 'Order', 'Cache'],
    'OrderedEvents': ['NodeChildValidate', 'Nodespaces', 'Lifecycle', 'Adopt',
                      'Attributes', 'Order', 'UUIDAware'],
}
TYPES = ['Node', 'AttributedNode'] + sorted(COMPOSED)


class NotANode(object):

    def __init__(self, name):
        self.name = self.__name__ = name
        self.__parent__ = None
        self.uuid = uuid.UUID(int=7)


def cases(tier):
    node = gen.one_of(
        st.tuples(st.just('new'), gen.idx), st.tuples(st.just('new'), gen.idx),
        st.tuples(st.just('new'), gen.idx), st.tuples(st.just('new'), gen.idx),
        st.tuples(st.just('deep'), gen.idx),
        st.tuples(st.just('old'), gen.idx),
        st.tuples(st.just('child'), gen.idx),
        st.tuples(st.just('twin'), gen.idx),
        st.tuples(st.just('inner'), gen.idx),
        st.tuples(st.just('self'), gen.idx),
        st.tuples(st.just('bad'), gen.idx),
        st.tuples(st.just('noname'), gen.idx)).map(list)
    ref = gen.one_of(
        st.tuples(st.just('child'), gen.idx),
        st.tuples(st.just('child'), gen.idx),
        st.tuples(st.just('child'), gen.idx),
        st.tuples(st.just('child'), gen.idx),
        st.tuples(st.just('foreign'), gen.idx)).map(list)
    ops = [
        (5, gen.op('insertfirst', node)), (5, gen.op('insertlast', node)),
        (8, gen.op('insertbefore', node, ref)),
        (8, gen.op('insertafter', node, ref)),
        (8, gen.op('swap', ref, ref)),
        (2, gen.op('detach', gen.idx)),
        (2, gen.op('del', gen.idx)), (1, gen.op('popitem')),
        (2, gen.op('set', gen.idx, gen.idx)),
        (1, gen.op('pop', gen.idx, st.just('raise'))),
        (1, gen.op('fill', st.integers(1, 12))),
    ]
    keys = gen.pool(gen.names(), min_size=2, max_size=9)
    return st.fixed_dictionaries({
        'type': st.sampled_from(TYPES),
        'reads': gen.reads(),
        'keys': keys,
        'ops': gen.one_of(
            gen.ops(*ops, max_size=10),
            gen.ops(*ops, min_size=6, max_size=gen.size(tier, 25, 60))),
    })


class OrderDriver(MapDriver):

    def __init__(self, case, ctx):
        name = case['type']
        if name in COMPOSED:
            self.cls = classes.compose(COMPOSED[name], 'OdictStorage')
            self.reference = 'Reference' in COMPOSED[name]
            self.validate = 'NodeChildValidate' in COMPOSED[name]
        else:
            self.cls = classes.shipped(name)
            self.reference = self.validate = True
        MapDriver.__init__(
            self, self.cls(name='root'), case['keys'], lambda i: self.cls(),
            ordered=True, ctx=ctx,
            overwrite=not self.reference)
        self.rejected = 0
        self.inner = []

    def attached(self, node):
        return any(node is x for x in self.model.values())

    def spec(self, kind, i):
        """Node to insert and whether it has to be rejected."""
        if kind == 'noname':
            return self.cls(), True
        if kind == 'child' and self.model:
            return gen.pick(list(self.model.values()), i), True
        if kind == 'old':
            free = [x for x in self.removed if not self.attached(x)]
            if free:
                node = gen.pick(free, i)
                return node, node.name in self.model
        if kind == 'twin' and self.reference and self.model:
            node = self.cls(name=self.key(i))
            node.uuid = gen.pick(list(self.model.values()), i).uuid
            return node, True
        if kind == 'self' and self.reference:
            return self.node, True
        if kind == 'inner' and self.reference and self.model:
            child = gen.pick(list(self.model.values()), i)
            for _ in range(i % 3):
                inner = child.get('inner')
                if inner is None:
                    inner = child['inner'] = self.cls()
                    self.inner.append((inner, child))
                child = inner
            return child, True
        if kind == 'bad' and self.validate:
            return NotANode(self.key(i)), True
        node = self.cls(name=self.key(i))
        if kind == 'deep':
            node['x'] = self.cls()
            node['x']['y'] = self.cls()
        return node, node.name in self.model

    def ref(self, kind, i):
        if kind == 'child' and self.model:
            return gen.pick(list(self.model.values()), i), False
        for key in self.keys:
            if key not in self.model:
                return self.cls(name=key), True
        return self.cls(name='foreign'), True

    def place(self, node, index):
        items = list(self.model.items())
        items.insert(index, (node.name, node))
        self.model = dict(items)
        self.mutations += 1

    def attempt(self, rejected, func, *nodes):
        """Call; a rejection must leave everything as it was."""
        if not rejected:
            func(*nodes)
            self.ctx.label(func.__name__)
            return True
        before = [(x.name, x.__parent__) for x in nodes]
        raises((KeyError, ValueError), func, *nodes)
        for node, (name, parent) in zip(nodes, before):
            eq(node.name, name, 'name of rejected node')
            same(node.__parent__, parent, 'parent of rejected node')
        self.rejected += 1
        self.ctx.label('rejected-' + func.__name__)
        return False

    def do_insertfirst(self, spec):
        node, rejected = self.spec(*spec)
        if self.attempt(rejected, self.node.insertfirst, node):
            self.place(node, 0)

    def do_insertlast(self, spec):
        node, rejected = self.spec(*spec)
        if self.attempt(rejected, self.node.insertlast, node):
            self.place(node, len(self.model))

    def do_insertbefore(self, spec, ref, offset=0):
        func = self.node.insertafter if offset else self.node.insertbefore
        node, rejected = self.spec(*spec)
        ref, foreign = self.ref(*ref)
        if self.attempt(rejected or foreign, func, node, ref):
            index = list(self.model).index(ref.name)
            self.place(node, index + offset)

    def do_insertafter(self, spec, ref):
        self.do_insertbefore(spec, ref, 1)

    def do_swap(self, a, b):
        a, foreign_a = self.ref(*a)
        b, foreign_b = self.ref(*b)
        rejected = foreign_a or foreign_b or a is b
        if self.attempt(rejected, self.node.swap, a, b):
            items = list(self.model.items())
            keys = list(self.model)
            i, j = keys.index(a.name), keys.index(b.name)
            items[i], items[j] = items[j], items[i]
            self.model = dict(items)
            self.mutations += 1

    def do_detach(self, k):
        key = self.key(k)
        if key in self.model:
            same(self.node.detach(key), self.model[key], 'detach(%r)' % key)
            self.model_del(key)
        else:
            raises(KeyError, self.node.detach, key)

    def check(self):
        MapDriver.check(self)
        for key, child in self.model.items():
            eq(child.name, key, 'name of child')
            same(child.parent, self.node, 'parent of child')
            if self.reference:
                same(self.node.node(child.uuid), child, 'node by uuid')
        for inner, parent in self.inner:
            same(inner.parent, parent, 'parent of inner node')
            eq(inner.name, 'inner', 'name of inner node')
            same(parent['inner'], inner, 'inner node')


def run(case, ctx):
    driver = OrderDriver(case, ctx)
    ctx.label(case['type'])
    for i, op in enumerate(case['ops']):
        due = gen.due(case, i)
        driver.step(op, not due)
        if due:
            driver.check()
    driver.check()
    ctx.hit(driver.mutations >= 3 and len(driver.model) >= 2)
    ctx.label('rejections' if driver.rejected else 'no-rejection')
    driver.drain()


PROP = Prop(
    'P03', [Sub('order', cases, run, 27000)],
    rule='Histories of ordered insertion, swap, assignment, deletion and '
         'detach with valid, unnamed, duplicate, foreign and invalid nodes '
         'on 7 ordering node types, compared with a list of children after '
         'each or only some steps, drained backwards at the end. Non-trivial: at least '
         'three mutations and two children left.',
    assumptions=['reference nodes not contained have a name not used by a '
                 'child', 'names are not reserved for nodespaces'])
