# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, fail, raises, same

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
         'Attributes', 'AsAttrAccess', 'UnicodeAware', 'Events', 'Adopt',
         'Fallback', 'Alias']


def cases(tier):
    k = gen.idx
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=4, unique=True),
        'keys': st.lists(gen.anykeys(), max_size=6).map(gen.distinct),
        'types': st.lists(st.integers(0, 4), min_size=1, max_size=6),
        'where': st.sampled_from(['class', 'subclass', 'override']),
        'instances': st.integers(1, 3),
        'preset': st.lists(st.sampled_from(['none', 'name', 'parent']),
                           min_size=1, max_size=3),
        'ops': gen.ops(
            (3, gen.op('set', k)), (3, gen.op('setnew', k)),
            (3, gen.op('del', k)), (2, gen.op('pop', k)),
            (2, gen.op('popdefault', k)), (2, gen.op('popitem')),
            (2, gen.op('clear')), (2, gen.op('update', st.lists(
                k, min_size=1, max_size=3))),
            (1, gen.op('kw', k)), (2, gen.op('setdefault', k)),
            (2, gen.op('setdefaultnew', k)), (2, gen.op('detach', k)),
            (1, gen.op('read', k)), (1, gen.op('nochange')),
            (1, gen.op('attr', k)), (1, gen.op('redeclare', k)),
            min_size=1, max_size=gen.size(tier, 12, 40)),
        'which': st.lists(st.integers(0, 2), min_size=1, max_size=8),
    })


class Fixed(object):

    def __init__(self, node, keys, types, ctx):
        self.node = node
        self.keys = keys
        self.ctx = ctx
        self.types = types
        self.children = [node[key] for key in keys]
        self.refused = 0
        self.other = classes.shipped('BaseNode')(name='other')
        self.home = classes.shipped('BaseNode')(name='home')
        self.home['other'] = self.other

    def verify(self):
        node, keys = self.node, self.keys
        eq(list(node.keys()), keys, 'keys()')
        eq(list(node), keys, 'iter()')
        eq(len(node), len(keys), 'len()')
        for got, what in ((list(node.values()), 'values()'),
                          ([x[1] for x in node.items()], 'items()'),
                          ([node[key] for key in keys], 'items'),
                          ([node.get(key) for key in keys], 'get()')):
            eq(len(got), len(keys), 'number of ' + what)
            check(all(a is b for a, b in zip(got, self.children)),
                  'children of %s changed', what)
        for key, child, cls in zip(keys, self.children, self.types):
            same(child.parent, node, 'parent of child')
            eq(child.name, key, 'name of child')
            same(type(child), cls, 'type of child')
            same(key in node, True, 'key in node')
        eq(self.other.name, 'other', 'name of refused node')
        same(self.other.parent, self.home, 'parent of refused node')

    def key(self, k):
        return gen.pick(self.keys, k)

    def new(self, k):
        return gen.pick([x for x in ('new', 'x', '', 5, 'other')
                         if x not in self.keys], k)

    def refuse(self, func, *args, **kw):
        raises(NotImplementedError, func, *args, **kw)
        self.refused += 1

    def step(self, op):
        if op[0] in ('set', 'del', 'pop', 'popdefault', 'popitem', 'clear',
                     'setdefault', 'detach') and not self.keys:
            return self.empty(op[0])
        getattr(self, 'do_' + op[0])(*op[1:])
        self.ctx.label(op[0])

    def empty(self, name):
        if name == 'clear':
            self.node.clear()
        elif name == 'popitem':
            raises(KeyError, self.node.popitem)

    def do_set(self, k):
        self.refuse(self.node.__setitem__, self.key(k), self.other)
        self.refuse(self.node.__setitem__, self.key(k),
                    self.node[self.key(k)])

    def do_setnew(self, k):
        self.refuse(self.node.__setitem__, self.new(k), self.other)

    def do_del(self, k):
        self.refuse(self.node.__delitem__, self.key(k))

    def do_pop(self, k):
        self.refuse(self.node.pop, self.key(k))

    def do_popdefault(self, k):
        self.refuse(self.node.pop, self.key(k), None)

    def do_popitem(self):
        self.refuse(self.node.popitem)

    def do_clear(self):
        self.refuse(self.node.clear)

    def do_update(self, ks):
        data = dict((self.key(k) if k % 2 and self.keys else self.new(k),
                     self.other) for k in ks)
        self.refuse(self.node.update, data if ks[0] % 3 else data.items())

    def do_kw(self, k):
        self.refuse(self.node.update, **{'kw%d' % k: self.other})

    def do_setdefault(self, k):
        key = self.key(k)
        same(self.node.setdefault(key, self.other), self.node[key],
             'setdefault() of existing')

    def do_setdefaultnew(self, k):
        self.refuse(self.node.setdefault, self.new(k), self.other)

    def do_detach(self, k):
        self.refuse(self.node.detach, self.key(k))

    def do_read(self, k):
        key = self.new(k)
        e = raises(KeyError, self.node.__getitem__, key)
        eq(e.args, (key,), 'KeyError')
        same(self.node.get(key), None, 'get() of missing')
        d = object()
        same(self.node.pop(key, d), d, 'pop() of missing')
        same(key in self.node, False, 'missing key in node')

    def do_nochange(self):
        self.node.update()
        self.node.update({})
        self.node.update([])

    def do_redeclare(self, k):
        """For nodes created later."""
        cls = type(self.node)
        declared = list(cls.fixed_children_factories)
        if k % 2:
            declared.append(('later', cls))
        else:
            declared = declared[k % 3:][::-1]
        cls.fixed_children_factories = declared

    def do_attr(self, k):
        if hasattr(self.node, 'attrs'):
            self.node.attrs[str(self.key(k))] = k
            eq(self.node.attrs[str(self.key(k))], k, 'attribute')


def run(case, ctx):
    names = classes.normalize(case['flags'])
    base = classes.build('Fixed', tuple(
        names[:-2] + ['FixedChildren'] + names[-2:]))
    keys = [gen.dk(k) for k in case['keys']]
    made = []
    kinds = [classes.shipped('BaseNode'), classes.shipped('OrderedNode'),
             classes.shipped('Node'), classes.shipped('AttributedNode')]
    inner = type('Inner', (base,), {'fixed_children_factories': (
        ('a', kinds[0]), ('b', kinds[1]))})
    kinds.append(inner)
    types = [kinds[case['types'][i % len(case['types'])]]
             for i in range(len(keys))]

    owner = classes.shipped('BaseNode')(name='owner')

    def factory(cls, preset):
        def make():
            res = cls()
            if preset != 'none':
                res.__name__ = 'preset'
            if preset == 'parent':
                res.__parent__ = owner
            made.append(res)
            return res
        return make
    factories = [
        (key, factory(cls, case['preset'][i % len(case['preset'])]))
        for i, (key, cls) in enumerate(zip(keys, types))]
    if case['types'][0] % 2:
        factories = tuple(factories)
    if case['where'] == 'override':
        cls = type('First', (base,), {'fixed_children_factories': (
            ('wrong', kinds[0]),)})
        cls = type('Second', (cls,), {'fixed_children_factories': factories})
    else:
        cls = type('First', (base,), {'fixed_children_factories': factories})
        if case['where'] == 'subclass':
            cls = type('Second', (cls,), {})
    fixed = []
    for i in range(case['instances']):
        del made[:]
        node = cls(name='node%d' % i)
        eq(node.name, 'node%d' % i, 'name of node')
        eq(len(made), len(keys), 'factory calls on creation')
        got = [node[key] for key in keys]
        check(all(a is b for a, b in zip(made, got)),
              'children are not those of the factories')
        fixed.append(Fixed(node, keys, types, ctx))
        fixed[-1].verify()
    del made[:]
    for i, op in enumerate(case['ops']):
        fixed[case['which'][i % len(case['which'])] % len(fixed)].step(op)
        for x in fixed:
            x.verify()
    eq(made, [], 'factory calls after creation')
    seen = set()
    for x in fixed:
        for child in x.children:
            if id(child) in seen:
                fail('instances share children')
            seen.add(id(child))
            if type(child) is inner:
                eq(child['a'].path, [x.node.name, child.name, 'a'], 'path')
                raises(NotImplementedError, child.__delitem__, 'a')
    ctx.hit(len(keys) >= 2 and sum(x.refused for x in fixed) >= 2)


PROP = Prop(
    'P21', [Sub('fixed', cases, run, 32000)],
    rule='Fixed children classes (factories on the class, a base class or '
         'overridden; random compositions; arbitrary keys; nested) with up '
         'to three instances; every read compared with the children found '
         'at construction after each of a sequence of attempted writes by '
         'all mapping methods and of new declarations for later nodes. Non-trivial: two children and two refused '
         'writes.')
