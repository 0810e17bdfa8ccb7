# -*- coding: utf-8 -*-
import uuid

from hypothesis import strategies as st

from vt import classes, forest, gen
from vt.core import Prop, Sub, eq, raises, same
from vt.mapmodel import MapDriver

TYPES = ['BaseNode', 'OrderedNode', 'MyNode', 'Node', 'AttributedNode',
         'OrderedRef', 'DictRef', 'EventRef', 'Rich', 'Nested']
forest_kinds = dict(forest.COMPOSED)
forest_kinds['Nested'] = (['NodeChildValidate', 'Lifecycle', 'Adopt', 'Cache',
                           'VolatileStorageInvalidate', 'Order', 'Alias'],
                          'OdictStorage')

GOOD = ['node', 'node', 'subtree', 'shipped', 'mockup']
BAD = ['class', 'nodeclass', 'text', 'empty', 'int', 'zero', 'none', 'unset',
       'dict', 'list', 'func', 'object', 'named', 'iface', 'instance',
       'odict', 'uuid', 'true']
ROUTES = ['set', 'setdefault', 'setdefault1', 'dict', 'pairs', 'kw', 'items',
          'attr', 'insertfirst', 'insertlast', 'insertbefore', 'insertafter']


class Named(object):
    """Looks like a node, but is none."""

    def __init__(self, name):
        self.__name__ = self.name = name
        self.__parent__ = self.parent = None
        self.uuid = uuid.UUID(int=9)
        self.children = {}

    def iterkeys(self):
        return iter(())

    def keys(self):
        return []

    def values(self):
        return []


def make(kind, cls, name, reference):
    from node.interfaces import INode
    from node.testing.env import MockupNode
    from node.utils import UNSET
    from odict import odict
    from zope.interface import Interface, directlyProvides
    if kind == 'node':
        return cls()
    if kind == 'subtree':
        node = cls(name='old')
        node['x'] = cls()
        return node
    if kind == 'shipped':
        return classes.shipped('AttributedNode')(name='old')
    if kind == 'mockup':
        return cls() if reference else MockupNode()
    if kind == 'class':
        return cls
    if kind == 'nodeclass':
        class Providing(object):
            uuid = uuid.UUID(int=3)
        directlyProvides(Providing, INode)
        Providing.__name__ = 'Providing'
        Providing.name = name
        return Providing
    if kind == 'named':
        return Named(name)
    return {
        'text': 'text', 'empty': '', 'int': 5, 'zero': 0, 'none': None,
        'unset': UNSET, 'dict': {'a': 1}, 'list': [1], 'func': len,
        'object': object(), 'iface': Interface, 'instance': Exception('x'),
        'odict': odict(), 'uuid': uuid.UUID(int=1), 'true': True}[kind]


def cases(tier):
    val = gen.one_of(st.sampled_from(GOOD), st.sampled_from(BAD))
    ops = [
        (8, gen.op('write', st.sampled_from(ROUTES), gen.idx, val, gen.idx)),
        (3, gen.op('many', st.sampled_from(['dict', 'pairs', 'kw', 'items']),
                   st.lists(st.tuples(gen.idx, val).map(list), min_size=2,
                            max_size=5))),
        (2, gen.op('del', gen.idx)),
        (1, gen.op('toggle')),
        (1, gen.op('popitem')),
    ]
    return st.fixed_dictionaries({
        'type': st.sampled_from(TYPES),
        'lenient': st.sampled_from([False, False, 'class', 'instance']),
        'keys': gen.pool(gen.names(), max_size=6),
        'reads': gen.reads(),
        'ops': gen.ops(*ops, max_size=gen.size(tier, 16, 40)),
    })


class Driver(MapDriver):

    def __init__(self, case, ctx):
        kind = case['type']
        if kind in forest_kinds:
            cls = classes.compose(*forest_kinds[kind])
        else:
            cls = classes.shipped(kind)
        self.cls = cls
        self.lenient = bool(case['lenient'])
        rootcls = cls
        if case['lenient'] == 'class':
            rootcls = type('Lenient', (cls,), {'allow_non_node_childs': True})
        root = rootcls(name='root')
        if case['lenient'] == 'instance':
            root.allow_non_node_childs = True
        self.ordering = hasattr(root, 'insertfirst')
        self.reference = kind in ('Node', 'AttributedNode', 'OrderedRef',
                                  'DictRef', 'EventRef')
        MapDriver.__init__(
            self, root, case['keys'], None,
            ordered=kind not in ('BaseNode', 'DictRef'), ctx=ctx, reuse=False)
        self.index = {}
        self.rejected = 0
        self.accepted = 0

    def valid(self, kind):
        return kind in GOOD or self.lenient

    def value(self, kind, key):
        if kind == 'nodeclass' and self.lenient:
            kind = 'class'
        return make(kind, self.cls, key, self.reference)

    def named(self, value):
        try:
            return value.name in self.model
        except (AttributeError, TypeError):
            return False

    def location(self, value):
        return tuple(getattr(value, x, 'n/a')
                     for x in ('__name__', '__parent__'))

    def do_toggle(self):
        self.lenient = not self.lenient
        self.node.allow_non_node_childs = self.lenient

    def do_write(self, route, k, kind, r):
        node = self.node
        key = self.key(k)
        if self.reference and key in self.model:
            return
        valid = self.valid(kind)
        if kind == 'nodeclass' and self.lenient:
            kind = 'class'
        if route == 'setdefault1':
            kind = 'none'
            valid = self.lenient
        value = self.value(kind, key)
        if route.startswith('insert'):
            if not self.ordering or key in self.model \
                    or kind not in GOOD + ['named']:
                route = 'set'
            elif kind in GOOD and kind != 'mockup':
                value.__name__ = key
            elif kind == 'mockup':
                value = self.cls(name=key)
        if route == 'kw' and key in ('self', '_next'):
            route = 'set'
        if route == 'attr' and (not hasattr(node, 'as_attribute_access')
                                or key == 'context'):
            route = 'set'
        refs = list(self.model.values())
        refs = [x for x in refs if self.named(x)]
        if route.startswith('insert') and len(refs) < len(self.model):
            # ordering needs nodes with names
            route = 'set'
        if route in ('insertbefore', 'insertafter') and not refs:
            route = 'insertfirst'
        before = self.location(value)
        exists = key in self.model
        index = len(self.model)
        if route == 'set':
            func, args = node.__setitem__, (key, value)
        elif route == 'setdefault':
            func, args = node.setdefault, (key, value)
        elif route == 'setdefault1':
            func, args = node.setdefault, (key,)
        elif route == 'dict':
            func, args = node.update, ({key: value},)
        elif route == 'pairs':
            func, args = node.update, ([(key, value)],)
        elif route == 'items':
            func, args = node.update, (x for x in [[(key, value)]])
        elif route == 'kw':
            def func():
                node.update(**{key: value})
            args = ()
        elif route == 'attr':
            def func():
                setattr(node.as_attribute_access(), key, value)
            args = ()
        elif route in ('insertfirst', 'insertlast'):
            func, args = getattr(node, route), (value,)
            index = 0 if route == 'insertfirst' else index
        else:
            ref = gen.pick(refs, r)
            func, args = getattr(node, route), (value, ref)
            index = list(self.model.values()).index(ref) \
                + (route == 'insertafter')
        args = tuple(args)
        if route.startswith('setdefault') and exists:
            same(func(*args), self.model[key], 'setdefault() of existing')
            self.untouched(value, before)
            return
        if not valid:
            raises(ValueError, func, *args)
            self.untouched(value, before)
            self.rejected += 1
            self.ctx.label('rejected-' + route, 'rejected-' + kind)
            return
        func(*args)
        self.ctx.label('accepted-' + route)
        self.accept(key, value, kind, index)

    def accept(self, key, value, kind, index=None):
        self.accepted += 1
        items = [x for x in self.model.items()]
        if key in self.model:
            self.model[key] = value
        else:
            items.insert(len(items) if index is None else index, (key, value))
            self.model = dict(items)
        if kind in GOOD:
            eq(value.__name__, key, 'name of accepted node')
            same(value.__parent__, self.node, 'parent of accepted node')
            if self.reference:
                for x in [value] + list(value.values()):
                    self.index[int(x.uuid)] = x

    def untouched(self, value, before):
        after = self.location(value)
        eq(after[0], before[0], 'name of rejected value')
        same(after[1], before[1], 'parent of rejected value')
        if self.reference and hasattr(value, 'index') and value is not None \
                and not isinstance(value, (type, str, list)):
            same(value.node(self.node.uuid), None,
                 'index of rejected node')

    def do_many(self, form, items):
        """Values before the first rejected one are set."""
        todo = []
        for k, kind in items:
            key = self.key(k)
            if any(key == x[0] for x in todo) \
                    or self.reference and key in self.model:
                continue
            if form == 'kw' and key in ('self', '_next'):
                continue
            todo.append((key, self.value(kind, key), kind))
        good = []
        bad = None
        for item in todo:
            if not self.valid(item[2]):
                bad = item
                break
            good.append(item)
        before = [self.location(x[1]) for x in todo[len(good):]]
        data = [x[:2] for x in todo]
        node = self.node
        func = {'dict': lambda: node.update(dict(data)),
                'pairs': lambda: node.update(data),
                'items': lambda: node.update(iter(data)),
                'kw': lambda: node.update(**dict(data))}[form]
        if bad is None:
            func()
        else:
            raises(ValueError, func)
            self.rejected += 1
            self.ctx.label('rejected-many')
        for item in good:
            self.accept(*item)
        for item, loc in zip(todo[len(good):], before):
            self.untouched(item[1], loc)

    def do_del(self, k):
        key = self.key(k)
        if key in self.model:
            self.unindex(self.model[key])
        MapDriver.do_del(self, k)

    def do_popitem(self):
        if self.model:
            key, value = self.node.popitem()
            same(value, self.model.pop(key), 'popitem() value')
            self.unindex(value)

    def unindex(self, value):
        for n in list(self.index):
            if self.index[n] is value or \
                    getattr(self.index[n], '__parent__', None) is value:
                del self.index[n]

    def check(self):
        MapDriver.check(self)
        if self.reference:
            for n, node in self.index.items():
                same(self.node.node(n), node, 'indexed node')
            same(self.node.node(9), None, 'uuid of rejected value')
            same(self.node.node(3), None, 'uuid of rejected value')


def run(case, ctx):
    driver = Driver(case, ctx)
    ctx.label(case['type'], 'lenient' if driver.lenient else 'strict')
    for i, op in enumerate(case['ops']):
        getattr(driver, 'do_' + op[0])(*op[1:])
        if gen.due(case, i):
            driver.check()
    driver.check()
    ctx.hit(driver.rejected >= 1 and driver.accepted >= 1)


def attr_cases(tier):
    val = gen.one_of(st.sampled_from(GOOD), st.sampled_from(BAD))
    return st.lists(st.tuples(gen.names(ns=True), val).map(list),
                    min_size=1, max_size=6)


def run_attrs(case, ctx):
    """Attributes accept any value."""
    owner = classes.shipped('AttributedNode')(name='owner')
    model = {}
    for key, kind in case:
        if kind == 'nodeclass':
            continue
        value = make(kind, classes.shipped('BaseNode'), key, False)
        owner.attrs[key] = value
        model[key] = value
        for name in model:
            same(owner.attrs[name], model[name], 'attribute %r' % name)
        ctx.hit(kind in BAD)
    eq(list(owner.attrs.keys()), list(model), 'attribute names')


PROP = Prop(
    'P05', [Sub('children', cases, run, 25000),
            Sub('attributes', attr_cases, run_attrs, 2000)],
    rule='Histories of writing 4 kinds of nodes and 18 kinds of other values '
         'in 12 ways (and several at once) to strict and lenient nodes of '
         '10 types. Non-trivial: at least one accepted and one rejected '
         'value.',
    assumptions=['assignments to an occupied key of a referencing node are '
                 'excluded (known finding of P07)'])
