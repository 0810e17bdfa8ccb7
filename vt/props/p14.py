# -*- coding: utf-8 -*-
import functools

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same
from vt.mapmodel import MapDriver, map_ops

FLAGS = ['NodeChildValidate', 'UUIDAware', 'Lifecycle', 'Adopt', 'Cache',
         'Reference', 'Order', 'AsAttrAccess', 'UnicodeAware', 'Alias',
         'Fallback', 'Events']
SPACES = ['__a__', '__b__', '__x y__', '__ä__', '____', '__attrs___x__',
          '__name__', '__keys__']
FORMS = ['dict', 'pairs', 'gen', 'kw', 'none', 'odict']


def cases(tier):
    n = gen.size(tier, 20, 50)
    s = st.integers(0, len(SPACES) - 1)

    def on(side):
        return [(w, x.map(lambda op: [side] + op))
                for w, x in map_ops(FORMS, fill=4)] + [
                    (1, gen.op('fill', st.integers(5, 40)).map(
                        lambda op: [side] + op))]
    ops = on('child') + on('attr') + [
        (12, gen.op('space', st.just('set'), s, gen.idx)),
        (6, gen.op('space', st.just('del'), s)),
        (2, gen.op('space', st.just('pop'), s)),
        (2, gen.op('space', st.just('update'), s, gen.idx)),
        (10, gen.op('inner', s, gen.idx)),
        (2, gen.op('dropattrs')), (1, gen.op('ownattrs')),
    ]
    return st.fixed_dictionaries({
        'cls': gen.one_of(
            st.sampled_from(['Node', 'AttributedNode']),
            st.tuples(st.lists(st.sampled_from(FLAGS), max_size=5,
                               unique=True), st.booleans()).map(list)),
        'access': st.booleans(),
        'reads': gen.reads(),
        'keys': gen.pool(gen.anykeys()),
        'ops': gen.ops(*ops, min_size=6, max_size=n),
    })


class Spaces(object):

    def __init__(self, node, ctx):
        self.node = node
        self.ctx = ctx
        self.model = {}
        self.known = set()
        self.changes = 0

    def step(self, how, s, *args):
        getattr(self, 'do_' + how)(SPACES[s], *args)
        self.ctx.label('space-' + how)

    def new(self, i):
        space = classes.shipped(['BaseNode', 'OrderedNode', 'AttributedNode',
                                 'Node'][i % 4])(name='other')
        if i > 11:
            # known elsewhere
            space.__parent__ = classes.shipped('BaseNode')()
        return space

    def put(self, key, space):
        self.model[key] = (space, [])
        self.changes += 1

    def do_set(self, key, i):
        space = self.new(i)
        self.node[key] = space
        self.put(key, space)

    def do_update(self, key, i):
        space = self.new(i)
        self.node.update({key: space})
        self.put(key, space)

    def do_del(self, key):
        if key in self.model:
            if len(key) % 2:
                del self.node[key]
            else:
                del self.node.nodespaces[key]
            del self.model[key]
            self.changes += 1
        else:
            e = raises(KeyError, self.node.__delitem__, key)
            eq(e.args, (key,), 'KeyError of del')

    def do_pop(self, key):
        if key in self.model:
            same(self.node.pop(key), self.model.pop(key)[0], 'pop()')
            self.changes += 1
        else:
            raises(KeyError, self.node.pop, key)

    def inner(self, s, i):
        if self.model:
            key = sorted(self.model)[s % len(self.model)]
            space, keys = self.model[key]
            name = 'k%d' % (i % 3)
            if name in keys:
                del space[name]
                keys.remove(name)
            else:
                space[name] = classes.shipped('AttributedNode')()
                keys.append(name)
            self.ctx.label('inner')

    def check(self):
        node = self.node
        eq(set(node.nodespaces) - set(['__attrs__']),
           set(self.model) | set(['__children__']), 'nodespaces')
        same(node.nodespaces['__children__'], node, '__children__')
        same(node['__children__'], node, '__children__ as item')
        for key in SPACES:
            eq((key in node, bool(node.has_key(key))),
               (key in self.model,) * 2, '%r in node, has_key()' % key)
            if key in self.model:
                space, keys = self.model[key]
                same(node.get(key), space, 'get(%r)' % key)
                same(node[key], space, 'nodespace %r as item' % key)
                same(node.nodespaces[key], space, 'nodespaces[%r]' % key)
                same(space.parent, node, 'parent of nodespace %r' % key)
                eq(space.name, key, 'name of nodespace %r' % key)
                eq(sorted(space.keys()), sorted(keys), 'keys of nodespace')
            else:
                e = raises(KeyError, node.__getitem__, key)
                eq(e.args, (key,), 'KeyError of getitem')
        names = list(node.keys())
        check(not any(gen.is_ns(x) for x in names),
              'nodespaces among the children: %r', names)
        values = [id(x) for x in node.values()]
        check(not any(id(x[0]) in values for x in self.model.values()),
              'nodespaces among the values')


def make_class(case):
    if not isinstance(case['cls'], list):
        base = classes.shipped(case['cls'])
        ordered = True
        flags = ['Reference']
    else:
        flags = [x for x in case['cls'][0]]
        ordered = case['cls'][1]
        if not ordered and 'Order' in flags:
            flags.remove('Order')
        flags = classes.normalize(flags + ['Attributes'])
        base = classes.compose(flags, 'OdictStorage' if ordered
                               else 'DictStorage')
    if case['access']:
        base = type('Access', (base,), {'attribute_access_for_attrs': True})
    return base, flags, ordered


@functools.lru_cache(None)
def own_attributes():
    from node.behaviors import NodeAttributes
    from plumber import plumbing
    from node.behaviors import Adopt, Nodify, OdictStorage
    return plumbing(Adopt, Nodify, OdictStorage)(
        type('OwnAttributes', (object,), {}))


def run(case, ctx):
    cls, flags, ordered = make_class(case)
    node = cls(name='root')
    child = classes.shipped('Node' if 'Reference' in flags else 'BaseNode')
    values = [None, 0, '', 'text', [1], False, dict, {'a': 1}]

    def attr_value(i):
        if i % 3 == 0:
            return classes.shipped('BaseNode')()
        return values[i % len(values)]
    children = MapDriver(node, case['keys'], lambda i: child(), ordered, ctx)

    def attributes():
        from node.utils import AttributeAccess
        attrs = node.attrs
        if case['access']:
            check(isinstance(attrs, AttributeAccess), 'attrs is no wrapper')
            attrs = node.nodespaces['__attrs__']
            same(object.__getattribute__(node.attrs, 'context'), attrs,
                 'wrapped attributes')
        else:
            same(node.attributes, attrs, 'attributes')
        same(node.nodespaces['__attrs__'], attrs, 'nodespaces[__attrs__]')
        same(node['__attrs__'], attrs, '__attrs__ as item')
        same(attrs.parent, node, 'parent of attributes')
        eq(attrs.name, '__attrs__', 'name of attributes')
        return attrs
    attrs = MapDriver(None, case['keys'], attr_value, True, ctx,
                      reuse=False)
    spaces = Spaces(node, ctx)
    touched = False
    for i, op in enumerate(case['ops']):
        due = gen.due(case, i) or i + 1 == len(case['ops'])
        if op[0] == 'child':
            children.step(op[1:], not due)
        elif op[0] == 'attr':
            attrs.node = attributes()
            touched = True
            attrs.step(op[1:], not due)
        elif op[0] == 'space':
            spaces.step(*op[1:])
        elif op[0] == 'inner':
            spaces.inner(*op[1:])
        elif op[0] == 'dropattrs' and touched:
            attributes()
            del node['__attrs__']
            attrs.model.clear()
            ctx.label('dropattrs')
        elif op[0] == 'ownattrs':
            # other attributes than the factory makes
            node['__attrs__'] = own = own_attributes()()
            same(attributes(), own, 'assigned attributes')
            attrs.model.clear()
            touched = True
            ctx.label('ownattrs')
        if not due:
            continue
        children.check()
        spaces.check()
        if touched:
            attrs.node = attributes()
            attrs.check()
    ctx.hit(children.mutations > 0 and attrs.mutations > 0
            and spaces.changes > 0)


PROP = Prop(
    'P14', [Sub('spaces', cases, run, 14400)],
    rule='Interleaved mapping operations on children, attributes (same key '
         'pool, any values) and named nodespaces of Node, AttributedNode and '
         'random compositions with and without attribute access for '
         'attributes; all three are compared with their models after each '
         'step. Non-trivial: children, attributes and nodespaces were '
         'changed.',
    assumptions=['the nodespace __children__ itself is not replaced'])
