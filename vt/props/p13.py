# -*- coding: utf-8 -*-
import itertools
import json
import os
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from vt import classes, gen, sertree
from vt.core import Prop, Sub, check, eq, raises, same, short

COUNTER = itertools.count()
BASES = ['BaseNode', 'OrderedNode', 'Node', 'AttributedNode']


def cases(tier):
    few = st.integers(0, 7)
    return st.fixed_dictionaries({
        # interface i extends the earlier ones listed
        'ifaces': st.lists(st.lists(few, max_size=2), min_size=1, max_size=6),
        # base (shipped or earlier class), implemented interfaces
        'classes': st.lists(st.fixed_dictionaries({
            'base': st.sampled_from(BASES),
            'own': gen.one_of(st.none(), few, st.just('last'),
                              st.just('last')),
            'impl': st.lists(few, max_size=2),
            'kw': st.booleans()}), min_size=1, max_size=7),
        # side, target kind, target index
        'regs': st.lists(st.tuples(
            st.sampled_from(['ser', 'de']),
            st.sampled_from(['iface', 'class', 'class', 'builtin']),
            few).map(list), min_size=1, max_size=10),
        'tree': st.recursive(
            st.fixed_dictionaries({'cls': few, 'direct': gen.one_of(
                st.none(), few)}),
            lambda c: st.fixed_dictionaries({
                'cls': few, 'direct': gen.one_of(st.none(), few),
                'children': st.lists(c, max_size=3)}),
            max_leaves=gen.size(tier, 6, 12)),
        'kw': st.dictionaries(st.sampled_from(['a', 'b', 'c', 'name_']),
                              sertree.values(False), max_size=3),
        'root': gen.one_of(st.none(), st.sampled_from(
            ['OrderedNode', 'BaseNode'])),
        'simple': st.booleans(),
        'split': gen.one_of(st.none(), st.integers(0, 6)),
    })


class World(object):

    def __init__(self, case):
        from zope.interface import Interface
        from zope.interface import implementer
        from zope.interface.interface import InterfaceClass
        from vt import nodes
        num = next(COUNTER)
        self.ifaces = []
        for i, bases in enumerate(case['ifaces']):
            bases = sorted(set(b for b in bases if b < i), reverse=True)
            # most specific first, without redundant ones
            bases = [self.ifaces[b] for b in bases]
            bases = [b for b in bases
                     if not any(o is not b and o.isOrExtends(b)
                                for o in bases)]
            self.ifaces.append(InterfaceClass(
                'I%d' % i, tuple(bases) or (Interface,)))
        self.classes = []
        self.kw = []
        for i, spec in enumerate(case['classes']):
            if spec['own'] == 'last' and i:
                base = self.classes[-1]
            elif isinstance(spec['own'], int) and spec['own'] < i:
                base = self.classes[spec['own']]
            else:
                import node.base
                base = getattr(node.base, spec['base'])
            dct = {'__module__': 'vt.nodes'}
            if spec['kw']:
                def __init__(self, name=None, parent=None, _base=base, **kw):
                    _base.__init__(self, name=name, parent=parent)
                    self.given = kw
                dct['__init__'] = __init__
            name = 'Dyn%d_%d' % (num, i)
            cls = type(name, (base,), dct)
            if spec['impl']:
                impl = []
                for j in spec['impl']:
                    iface = gen.pick(self.ifaces, j)
                    if iface not in impl:
                        impl.append(iface)
                impl = [x for x in impl
                        if not any(o is not x and o.isOrExtends(x)
                                   for o in impl)]
                cls = implementer(*impl)(cls)
            setattr(nodes, name, cls)
            self.classes.append(cls)
            self.kw.append(self.accepts(cls))

    def accepts(self, cls):
        return any('__init__' in c.__dict__ and c.__module__ == 'vt.nodes'
                   and c.__name__.startswith('Dyn') for c in cls.__mro__)

    def close(self):
        from vt import nodes
        for cls in self.classes:
            delattr(nodes, cls.__name__)


def make(spec, world, nodes, inref):
    from zope.interface import alsoProvides
    from node.interfaces import IReference
    i = spec['cls'] % len(world.classes)
    cls = world.classes[i]
    if inref and not IReference.implementedBy(cls):
        return None
    node = cls()
    node.__name__ = 'n%d' % len(nodes)
    if spec['direct'] is not None:
        alsoProvides(node, gen.pick(world.ifaces, spec['direct']))
    nodes.append(node)
    for child in spec.get('children', []):
        new = make(child, world, nodes, IReference.implementedBy(cls))
        if new is not None:
            node[new.name] = new
    return node


def walk(node):
    res = [node]
    for child in node.values():
        res.extend(walk(child))
    return res


def run(case, ctx):
    from node import serializer as mod
    from node.interfaces import INode
    world = World(case)
    registered = []
    try:
        calls = []
        # registrations in effect: side -> list of [target, id, index]
        effect = {'ser': [], 'de': []}

        def callback(side, num, target):
            def func(coder, node, data):
                calls.append((side, num, node, data))
                if side == 'ser':
                    data.setdefault('seen', []).append(num)
                    if world.kw[world.classes.index(type(node))]:
                        data['kw'] = kw
                else:
                    seen_data.append(data['seen'] if 'seen' in data else None)
            return func
        kw = dict((k, sertree.decode_value(v)) for k, v in case['kw'].items())
        seen_data = []
        root = make(case['tree'], world, [], False)
        nodes = walk(root)
        regs = list(enumerate(case['regs']))
        parts = [regs]
        if case['split'] is not None:
            # more registrations after the first use
            parts = [regs[:case['split']], regs[case['split']:]]
        for part in parts:
            for num, (side, what, i) in part:
                if what == 'iface':
                    target = gen.pick(world.ifaces, i)
                elif what == 'class':
                    target = gen.pick(world.classes, i)
                else:
                    # a class given as builtin type: matches no node
                    target = gen.pick([dict, str, list, Exception], i)
                func = callback(side, num, target)
                deco = mod.serializer if side == 'ser' else mod.deserializer
                same(deco(target)(func), func, 'result of the decorator')
                registered.append((side, target))
                again = [x for x in effect[side] if x[0] is target]
                if again:
                    again[0][1] = num
                    again[0][2] = True
                    ctx.label('replaced')
                else:
                    effect[side].append([target, num, False])
            # serialize
            del calls[:]
            data = mod.serialize(root, simple_mode=case['simple'])
            verify(calls, 'ser', effect, nodes, ctx)
            if case['simple']:
                del calls[:]
                raw = json.loads(data)
                check_seen(raw, root, effect, False)
                data = mod.serialize(root)
                verify(calls, 'ser', effect, nodes, ctx)
            check_seen(json.loads(data), root, effect, True)
            # the kw are recorded by a callback, nodes without lose them
            del calls[:]
            top = None
            if case['root']:
                top = classes.shipped(case['root'])(name='top')
            got = mod.deserialize(data, root=top)
            if top is not None:
                eq(list(top), [root.name], 'children of the root')
                same(top[root.name], got, 'child of the root')
                same(got.parent, top, 'parent of the deserialized node')
                ctx.label('root')
            new = walk(got)
            eq([type(x) for x in new], [type(x) for x in nodes], 'classes')
            eq([x.name for x in new], [x.name for x in nodes], 'names')
            verify(calls, 'de', effect, new, ctx)
            for a, b in zip(nodes, new):
                if not world.kw[world.classes.index(type(b))]:
                    continue
                recorded = any(matches(x[0], a) for x in effect['ser'])
                want = kw if recorded else {}
                check(sertree.exact(b.given, want),
                      'constructor got %s, recorded was %s', short(b.given),
                      short(want))
                if recorded and kw:
                    ctx.label('kw')
        matched = [x for side in effect for x in effect[side]
                   if any(matches(x[0], n) for n in nodes)]
        ctx.hit(len(matched) >= 2 and len(nodes) >= 2)
    finally:
        for side, target in registered:
            owner = mod.serializer if side == 'ser' else mod.deserializer
            registry = getattr(owner, 'registry', {})
            if target in registry:
                del registry[target]
        world.close()


def matches(target, node):
    from zope.interface.interfaces import IInterface
    if IInterface.providedBy(target):
        return target.providedBy(node)
    return isinstance(node, target)


def verify(calls, side, effect, nodes, ctx):
    """Each node got exactly its callbacks in order."""
    for node in nodes:
        mine = [x for x in calls if x[2] is node]
        want = [x for x in effect[side] if matches(x[0], node)]
        eq(sorted(x[1] for x in mine), sorted(x[1] for x in want),
           '%s callbacks of %s' % (side, type(node).__name__))
        # the place of a replaced callback is not defined
        stable = [x[1] for x in want if not x[2]]
        eq([x[1] for x in mine if x[1] in stable], stable,
           'order of %s callbacks' % side)
        check(all(x[3] is mine[0][3] for x in mine),
              'callbacks of one node got different data')
        if len(mine) > 1:
            ctx.label('several')
    eq(len(calls), sum(1 for x in calls if any(x[2] is n for n in nodes)),
       'number of calls for nodes of the tree')


def check_seen(raw, node, effect, typed):
    data = raw['__node__'] if typed else raw
    want = [x[1] for x in effect['ser'] if matches(x[0], node)]
    eq(sorted(data.get('seen', [])), sorted(want), 'data of callbacks')
    children = data.get('children', [])
    eq(len(children), len(node), 'number of serialized children')
    for child, sub in zip(children, node.values()):
        check_seen(child, sub, effect, typed)


# ---------------------------------------------------------------------------
# resolving names of modules not imported yet

def resolve_cases(tier):
    part = st.sampled_from(['alpha', 'beta', 'gamma'])
    return st.fixed_dictionaries({
        'packages': st.lists(part, max_size=3),
        'imported': st.integers(0, 4),
        'inner': st.booleans(),
        'how': st.sampled_from(['node', 'ob', 'func', 'missing', 'child']),
    })


SOURCE = '''
from node.base import OrderedNode
class Outer(object):
    class Inner(object):
        pass
class Late(OrderedNode):
    def __init__(self, name=None, parent=None, size=None):
        super(Late, self).__init__(name=name, parent=parent)
        self.size = size
def function():
    pass
'''


def run_resolve(case, ctx):
    from node.serializer import deserialize
    from node.base import BaseNode
    top = 'vtlate%d_%d' % (os.getpid(), next(COUNTER))
    path = [top] + case['packages']
    folder = tempfile.mkdtemp(prefix='vt')
    old = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    sys.path.insert(0, folder)
    try:
        here = folder
        for i, part in enumerate(path):
            here = os.path.join(here, part)
            os.mkdir(here)
            with open(os.path.join(here, '__init__.py'), 'w') as f:
                f.write('')
        with open(os.path.join(here, 'mod.py'), 'w') as f:
            f.write(SOURCE)
        full = path + ['mod']
        # some leading packages are imported already
        if case['imported']:
            __import__('.'.join(full[:case['imported']]))
        name = '.'.join(full)
        imported = name in sys.modules
        how = case['how']
        if how == 'node':
            got = deserialize(json.dumps({'__node__': {
                'class': name + '.Late', 'name': 'x', 'kw': {'size': 3}}}))
            same(type(got), sys.modules[name].Late, 'class')
            eq((got.name, got.size), ('x', 3), 'node')
        elif how == 'child':
            root = BaseNode()
            data = [{'__node__': {'class': name + '.Late', 'name': 'x',
                                  'children': [{'__node__': {
                                      'class': name + '.Late',
                                      'name': 'y'}}]}}]
            got = deserialize(json.dumps(data), root=root)
            same(type(root['x']['y']), sys.modules[name].Late, 'class')
            same(got[0], root['x'], 'result')
        elif how == 'ob':
            got = deserialize(json.dumps(
                {'__ob__': name + '.Outer.Inner' if case['inner']
                 else name + '.Outer'}))
            want = sys.modules[name].Outer
            same(got, want.Inner if case['inner'] else want, 'class')
        elif how == 'func':
            got = deserialize(json.dumps([{'__ob__': name + '.function'}]))
            same(got[0], sys.modules[name].function, 'function')
        else:
            raises((AttributeError, ImportError), deserialize, json.dumps(
                {'__ob__': name + '.Missing' if case['inner']
                 else '.'.join(path) + '.missing.Late'}))
        ctx.label(how)
        ctx.hit(not imported and how != 'missing')
    finally:
        sys.path.remove(folder)
        for key in list(sys.modules):
            if key == top or key.startswith(top + '.'):
                del sys.modules[key]
        sys.path_importer_cache.clear()
        sys.dont_write_bytecode = old
        shutil.rmtree(folder)


PROP = Prop(
    'P13', [Sub('callbacks', cases, run, 20000),
            Sub('resolve', resolve_cases, run_resolve, 400)],
    rule='Fresh hierarchies of interfaces and node classes, random '
         'registrations of serializers and deserializers (also repeated, '
         'also for types no node has), trees mixing these classes and '
         'directly provided interfaces; every callback call is recorded. '
         'Names are resolved in generated packages of which any part is '
         'imported already. Non-trivial: two matching registrations and two '
         'nodes; a module not imported yet.',
    assumptions=['the order of a replaced callback among the others is not '
                 'judged'])
