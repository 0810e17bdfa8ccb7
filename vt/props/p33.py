# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same
from vt.mapmodel import MapDriver, map_ops
from vt.props.p02 import PREFIX, composition

SHIPPED = ['BaseNode', 'OrderedNode', 'Node', 'AttributedNode', 'MyNode']
FORMS = ['dict', 'pairs', 'kw', 'none', 'node']


def cases(tier):
    i = st.integers(0, 3)
    k = gen.idx

    def on(side, weight):
        return [(w * weight, x.map(lambda op: ['map', side, op]).flatmap(
            lambda x: i.map(lambda n: [x[0], n, x[1], x[2]])))
            for w, x in map_ops(FORMS, fill=3)]
    ops = on('child', 2) + on('attrs', 1) + on('space', 1) + [
        (25, gen.op('invalidate', i, k)),
        (40, gen.op('bind', i, st.integers(0, 2), st.booleans())),
        (20, gen.op('register', i, st.integers(0, 2))),
        (40, gen.op('dispatch', i, st.integers(0, 2))),
        (25, gen.op('order', i, k, k)),
        (15, gen.op('setting', i, st.sampled_from(
            ['fallback_key', 'aliaser', 'allow_non_node_childs', 'events',
             'attribute_access_for_attrs']))),
        (6, gen.op('uuid', i)),
        (20, gen.op('sub', i, k)),
    ]
    comp = st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(classes.CANONICAL[:-2]),
                          max_size=9, unique=True),
        'odict': st.booleans(),
        'nonnodes': st.booleans()})
    return st.fixed_dictionaries({
        'cls': gen.one_of(st.sampled_from(SHIPPED), comp, comp),
        'of': st.lists(st.tuples(st.sampled_from([0, 0, 1, 1, 2]),
                                 st.booleans())
                       .map(list), min_size=2, max_size=4),
        'keys': gen.pool(gen.anykeys()),
        'values': st.integers(0, 5),
        'reads': gen.reads(),
        'ops': gen.ops(*ops, min_size=4, max_size=gen.size(tier, 22, 60)),
    })


class Instance(object):

    def __init__(self, world, n, cls, prefix):
        self.world = world
        self.n = n
        self.node = node = cls(name='root%d' % n)
        flags, ctx = world.flags, world.ctx
        keymap = None
        keys = world.keys
        if 'Alias' in flags and prefix:
            from node.behaviors.alias import PrefixAliaser
            node.aliaser = PrefixAliaser(PREFIX)
            keymap = PREFIX.__add__
            keys = gen.distinct([str(gen.dk(key)) for key in keys])
        self.drivers = dict(child=MapDriver(
            node, keys, self.child, world.ordered, ctx, keymap=keymap,
            reuse=False, node_factory=classes.shipped('OrderedNode')
            if not world.raw else None))
        self.flags = flags
        self.known = set()
        self.subs = {}
        self.calls = []
        self.uuid = getattr(node, 'uuid', None)
        self.settings = {}
        self.children = {}

    def child(self, i):
        kinds = self.world.kinds
        return kinds[i % len(kinds)]()

    def driver(self, side):
        """Attributes and nodespaces are accessed as late as needed."""
        if side in self.drivers:
            return self.drivers[side]
        if side == 'attrs':
            if 'Attributes' not in self.flags:
                return None
            values = [None, 0, '', 'text', [1], object(), dict]
            res = MapDriver(self.node.attrs, self.world.keys,
                            lambda i: values[i % len(values)], True,
                            self.world.ctx, reuse=False)
        else:
            if 'Nodespaces' not in self.flags:
                return None
            self.node['__space__'] = space = \
                classes.shipped('OrderedNode')()
            res = MapDriver(space, self.world.keys,
                            lambda i: classes.shipped('BaseNode')(), True,
                            self.world.ctx, reuse=False)
        self.drivers[side] = res
        return res

    def check(self):
        node = self.node
        for driver in self.drivers.values():
            driver.check()
        if 'attrs' not in self.drivers and 'Attributes' in self.flags:
            eq(len(node.attrs), 0, 'number of attributes of %d' % self.n)
        if 'Nodespaces' in self.flags:
            try:
                space = node['__space__']
            except KeyError:
                space = None
            same(space, self.drivers['space'].node
                 if 'space' in self.drivers else None, 'nodespace')
        if 'Adopt' in self.flags:
            for value in self.drivers['child'].model.values():
                if hasattr(value, 'treerepr') \
                        and hasattr(value, 'parent'):
                    same(value.parent, node, 'parent of child')
        same(getattr(node, 'uuid', None), self.uuid, 'uuid of %d' % self.n)
        eq(node.name, 'root%d' % self.n, 'name')
        same(node.parent, None, 'parent')
        for name, value in self.world.defaults.items():
            same(getattr(node, name), self.settings.get(name, value),
                 '%s of %d' % (name, self.n))
        if 'Events' in self.flags:
            for e in ('e0', 'e1', 'e2'):
                eq(self.knows(e), e in self.known, '%s known to %d'
                   % (e, self.n))

    def knows(self, event):
        from node.behaviors.events import UnknownEvent
        probe = self.probe
        try:
            self.node.bind(**{event: probe})
        except UnknownEvent:
            return False
        self.node.unbind(event, probe)
        return True

    def probe(self, *args):
        self.calls.append('probe')


class World(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.keys = case['keys']
        if isinstance(case['cls'], str):
            base = classes.shipped(case['cls'])
            self.ordered = case['cls'] not in classes.UNORDERED
            self.flags = {'BaseNode': [], 'OrderedNode': [], 'MyNode': []
                          }.get(case['cls'], [
                              'Nodespaces', 'Attributes', 'Reference',
                              'Order'])
            self.flags = self.flags + ['NodeChildValidate', 'Adopt']
            if case['cls'] == 'MyNode':
                self.flags = []
            self.raw = False
        else:
            base, self.flags, self.ordered = composition(case['cls'])
            self.raw = case['cls']['nonnodes'] \
                or 'NodeChildValidate' not in self.flags
        for flag in self.flags:
            ctx.label(flag)
        sub = type(base)('Sub', (base,), {})
        subsub = type(base)('SubSub', (sub,), {})
        hierarchy = [base, sub, subsub]
        if 'Reference' in self.flags:
            self.kinds = hierarchy + [classes.shipped('Node'),
                                      classes.shipped('AttributedNode')]
        else:
            self.kinds = hierarchy + [classes.shipped('BaseNode'),
                                      classes.shipped('OrderedNode')]
        self.kinds = self.kinds[case['values'] % len(self.kinds):] \
            + self.kinds[:case['values'] % len(self.kinds)]
        probe = base()
        self.defaults = {}
        for flag, name in (('Fallback', 'fallback_key'), ('Alias', 'aliaser'),
                           ('NodeChildValidate', 'allow_non_node_childs'),
                           ('Lifecycle', 'events'),
                           ('Attributes', 'attribute_access_for_attrs')):
            if flag in self.flags:
                self.defaults[name] = getattr(probe, name)
        self.instances = []
        for n, (i, prefix) in enumerate(case['of']):
            self.instances.append(Instance(self, n, hierarchy[i], prefix))
            if 'Alias' in self.flags:
                self.instances[-1].settings['aliaser'] = \
                    self.instances[-1].node.aliaser
        self.touched = set()

    def step(self, op):
        instance = gen.pick(self.instances, op[1])
        if getattr(self, 'do_' + op[0])(instance, *op[2:]) is not False:
            self.touched.add(instance.n)
            self.ctx.label(op[0])

    def do_map(self, instance, side, op):
        driver = instance.driver(side)
        if driver is None:
            return False
        driver.step(op, not self.due)

    def resync(self, driver):
        driver.model = {key: driver.node[key] for key in driver.node.keys()}

    def do_invalidate(self, instance, k):
        if 'Invalidate' not in self.flags:
            return False
        driver = instance.drivers['child']
        if k % 3 == 0:
            instance.node.invalidate()
        elif driver.model:
            instance.node.invalidate(gen.pick(list(driver.model), k))
        self.resync(driver)

    def do_bind(self, instance, e, register):
        if 'Events' not in self.flags:
            return False
        if register:
            self.do_register(instance, e)
        e = 'e%d' % e
        if e in instance.known:
            def sub(*args):
                instance.calls.append((e, args))
            instance.node.bind(**{e: sub})
            instance.subs.setdefault(e, []).append(sub)

    def do_register(self, instance, e):
        if 'Events' not in self.flags:
            return False
        instance.node.register_event('e%d' % e)
        instance.known.add('e%d' % e)

    def do_dispatch(self, instance, e):
        if 'Events' not in self.flags:
            return False
        for other in self.instances:
            del other.calls[:]
        e = 'e%d' % e
        instance.node.dispatch(e, 'arg')
        for other in self.instances:
            eq(other.calls, [(e, ('arg',))] * len(other.subs.get(e, []))
               if other is instance else [], 'calls on %d' % other.n)

    def do_order(self, instance, a, b):
        if 'Order' not in self.flags or 'Adopt' not in self.flags:
            return False
        driver = instance.drivers['child']
        if not driver.model:
            driver.do_fill(3)
        nodes = [x for x in driver.model.values() if hasattr(x, 'treerepr')]
        if len(nodes) < 2 or len(nodes) < len(driver.model):
            return False
        a, b = gen.pick(nodes, a), gen.pick(nodes, b)
        if a is not b:
            instance.node.swap(a, b)
            self.resync(driver)

    def do_setting(self, instance, name):
        if name not in self.defaults or name == 'allow_non_node_childs' \
                and self.raw:
            return False
        if name == 'aliaser':
            return False
        value = dict(fallback_key='zz', allow_non_node_childs=True,
                     events=dict(self.defaults.get('events') or {}),
                     attribute_access_for_attrs=False)[name]
        setattr(instance.node, name, value)
        instance.settings[name] = value
        if name == 'allow_non_node_childs':
            for other in self.instances:
                if not other.settings.get(name):
                    raises(ValueError, other.node.__setitem__, 'xx', 'text')

    def do_uuid(self, instance):
        import uuid
        if 'Reference' not in self.flags and 'UUIDAware' not in self.flags:
            return False
        instance.node.uuid = instance.uuid = uuid.uuid4()

    def do_sub(self, instance, k):
        """Below a child."""
        nodes = [x for x in instance.drivers['child'].model.values()
                 if type(x) in self.kinds[:6]]
        child = gen.pick(nodes, k)
        if child is None or len(child) > 5:
            return False
        key = 'p-%d' % len(child)
        grand = classes.shipped('Node')() if 'Reference' in self.flags \
            else classes.shipped('BaseNode')()
        child[key] = grand
        instance.children.setdefault(id(child), (child, {}))[1][key] = grand

    def check(self):
        for instance in self.instances:
            instance.check()
            alive = [id(x) for x in instance.drivers['child'].model.values()]
            for i, (child, grands) in instance.children.items():
                if i in alive:
                    eq(set(child.keys()), set(grands), 'grand children')
        if 'Reference' in self.flags:
            for instance in self.instances:
                for other in self.instances:
                    children = [x for x in
                                other.drivers['child'].model.values()
                                if hasattr(x, 'treerepr')]
                    for child in children:
                        same(instance.node.node(child.uuid),
                             child if other is instance else None,
                             'node() on %d' % instance.n)
                    same(instance.node.node(other.node.uuid),
                         other.node if other is instance else None,
                         'node() on %d' % instance.n)
        if 'UUIDAware' in self.flags or 'Reference' in self.flags:
            uuids = set(x.node.uuid for x in self.instances)
            eq(len(uuids), len(self.instances), 'distinct uuids')


def run(case, ctx):
    world = World(case, ctx)
    if gen.due(case, 0):
        world.check()
    for i, op in enumerate(case['ops']):
        world.due = gen.due(case, i)
        world.step(op)
        if world.due:
            world.check()
    world.check()
    ctx.hit(len(world.touched) >= 2)


PROP = Prop(
    'P33', [Sub('instances', cases, run, 16000)],
    rule='Two to four instances of a shipped or composed class, its subclass '
         'and the subclass of that; interleaved histories of mapping '
         'operations on children, attributes and a nodespace, invalidation, '
         'event registration and binding, ordering, settings, uuids; after '
         'each step every instance is compared with its own model. '
         'Non-trivial: at least two instances were changed.',
    assumptions=['the instances are in different trees'])
