# -*- coding: utf-8 -*-
from hypothesis import strategies as st
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import implementer
from zope.interface import noLongerProvides

from node.base import BaseNode
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.interfaces import INode
from node.interfaces import IOrdered
from plumber import plumbing

from vt import gen
from vt.core import Prop, Sub, eq, same


class I(Interface):
    pass


class J(I):
    pass


class K(Interface):
    pass


class Unused(Interface):
    pass


class A(BaseNode):
    pass


class B(A):
    pass


@implementer(I)
class C(BaseNode):
    pass


@implementer(J)
class D(B):
    pass


class E(OrderedNode):
    pass


class Mixin(object):
    pass


class F(Mixin, A):
    """A false node."""

    def __bool__(self):
        return False


@implementer(K)
@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class G(object):

    def __len__(self):
        return 0


@plumbing(DefaultInit, Nodify, OdictStorage)
class H(object):
    """Does not adopt its children."""


class Value(object):
    """No node."""


@implementer(I)
class IValue(Value):
    pass


CLASSES = [A, B, C, D, E, F, G, H]
INTERFACES = [I, J, K, Unused, INode, IOrdered, Interface]
QUERIES = [A, B, C, D, E, F, G, H, Mixin, BaseNode, OrderedNode, dict, object,
           Value]
PROVIDED = {A: set(), B: set(), C: {I}, D: {I, J}, E: {IOrdered}, F: set(),
            G: {K, IOrdered}, H: {IOrdered}, Value: set(), IValue: {I}}


def provides(ob, direct, iface):
    if iface is Interface:
        return True
    if iface is INode and not isinstance(ob, Value):
        return True
    res = set(PROVIDED[type(ob)]) | set(direct)
    if J in res:
        res.add(I)
    return iface in res


def cases(tier):
    return st.fixed_dictionaries(dict(
        nodes=st.lists(st.fixed_dictionaries(dict(
            cls=st.integers(0, 7), parent=st.integers(0, 15),
            direct=st.lists(st.integers(0, 3), max_size=2))),
            min_size=2, max_size=gen.size(tier, 12, 25)),
        values=st.lists(st.tuples(gen.idx, st.integers(0, 1), st.booleans())
                        .map(list), max_size=3),
        changes=st.lists(st.tuples(
            st.sampled_from(['add', 'drop', 'detach']), gen.idx,
            st.integers(0, 3)).map(list), max_size=5)))


class Record(object):

    def __init__(self, ob, direct, parent):
        self.ob = ob
        self.direct = set(direct)
        self.parent = parent
        self.children = []
        self.removed = False

    @property
    def adopted(self):
        return None if self.parent is None \
            or isinstance(self.parent.ob, H) else self.parent


def compare(records, ctx):
    for record in records:
        if not isinstance(record.ob, Value):
            up = []
            node = record.adopted
            while node is not None:
                up.append(node)
                node = node.adopted
            for query in INTERFACES + QUERIES:
                if query in INTERFACES:
                    found = [x for x in up if provides(x.ob, x.direct, query)]
                else:
                    found = [x for x in up if isinstance(x.ob, query)]
                want = found[0].ob if found else None
                same(record.ob.acquire(query), want, 'acquire(%s)' % (query,))
                if found and found[0] is not up[0]:
                    ctx.hit()
            order = list(record.ob.keys())
            for query in INTERFACES:
                want = [x.ob for key, x in sorted(
                    record.children, key=lambda y: order.index(y[0]))
                    if provides(x.ob, x.direct, query)]
                for name in ('filtereditervalues', 'filtereditems',
                             'filteredvalues'):
                    got = getattr(record.ob, name)(query)
                    if name == 'filteredvalues':
                        eq(type(got), list, 'type of filteredvalues()')
                    eq([id(x) for x in got], [id(x) for x in want],
                       '%s(%s)' % (name, query))
                if want and len(want) < len(order):
                    ctx.label('filtered')


def run(case, ctx):
    records = []
    for i, spec in enumerate(case['nodes']):
        ob = CLASSES[spec['cls']](name='n%d' % i if i % 2 else None)
        if spec['direct']:
            alsoProvides(ob, *set(INTERFACES[x] for x in spec['direct']))
        parent = records[spec['parent'] % i] if i else None
        record = Record(ob, (INTERFACES[x] for x in spec['direct']), parent)
        records.append(record)
        if parent is not None:
            parent.ob['n%d' % i] = ob
            parent.children.append(('n%d' % i, record))
    count = len(records)
    for n, (i, kind, direct) in enumerate(case['values']):
        parent = records[i % count]
        ob = [Value, IValue][kind]()
        if direct:
            alsoProvides(ob, K)
        parent.ob.allow_non_node_childs = True
        parent.ob['v%d' % n] = ob
        record = Record(ob, [K] if direct else [], parent)
        parent.children.append(('v%d' % n, record))
        ctx.label('values')
    compare(records, ctx)
    for how, i, x in case['changes']:
        record = records[i % len(records)]
        iface = INTERFACES[x]
        if how == 'add':
            alsoProvides(record.ob, iface)
            record.direct.add(iface)
        elif how == 'drop':
            if iface in record.direct and not (
                    iface in PROVIDED[type(record.ob)]):
                noLongerProvides(record.ob, iface) if not (
                    iface is I and (J in record.direct or
                                    J in PROVIDED[type(record.ob)])) else None
                if not provides_now(record, iface):
                    record.direct.discard(iface)
        elif record.parent is not None and not record.removed:
            record.removed = True
            key = [k for k, r in record.parent.children if r is record][0]
            del record.parent.ob[key]
            record.parent.children = [
                (k, r) for k, r in record.parent.children if r is not record]
            # a removed node keeps pointing to its parent
            ctx.label('removed')
        compare(records, ctx)


def provides_now(record, iface):
    from zope.interface import directlyProvidedBy
    return iface in list(directlyProvidedBy(record.ob))


PROP = Prop(
    'P32', [Sub('trees', cases, run, 20000)],
    rule='Trees of nodes of related classes, some with implemented, '
         'inherited and directly provided interfaces, some false; every '
         'node is asked for every interface and class, compared with a '
         'search over the specification, also while interfaces are added '
         'and dropped and children are removed. Non-trivial: something was '
         'acquired from beyond the parent.')
