# -*- coding: utf-8 -*-
import functools

from hypothesis import strategies as st

from vt import classes, gen, lifelog
from vt.core import Prop, Sub, Violation, check, eq, raises, same

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Adopt',
         'Attributes', 'Attributes', 'Reference', 'Order', 'AsAttrAccess',
         'UnicodeAware', 'Events', 'Alias']
KINDS = ['created', 'added', 'modified', 'removed', 'detached']


@functools.lru_cache(None)
def custom_events(num):
    from node import events
    return dict((kind, type('Custom%d%s' % (num, kind), (
        getattr(events, 'Node%sEvent' % kind.capitalize()),), {}))
        for kind in KINDS)


def default_events():
    from node import events
    return dict((kind, getattr(events, 'Node%sEvent' % kind.capitalize()))
                for kind in KINDS)


@functools.lru_cache(None)
def attributes_class(custom):
    from node.behaviors import AttributesLifecycle, NodeAttributes
    from plumber import plumbing
    return plumbing(AttributesLifecycle)(
        type('LifecycleAttributes', (NodeAttributes,), {}))


def make_class(case):
    flags = list(case['flags']) + ['Lifecycle']
    if not case['odict'] and 'Order' in flags:
        flags.remove('Order')
    if case['odict'] and case['order']:
        flags.extend(['Order', 'Adopt'])
    flags = classes.normalize(flags)
    base = classes.compose(flags, 'OdictStorage' if case['odict']
                           else 'DictStorage')
    dct = {}
    if 'Attributes' in flags:
        dct['attributes_factory'] = attributes_class(0)
    cls = type('Alive', (base,), dct)
    configured = default_events()
    if case['events'] == 'class':
        cls.events = configured = custom_events(1)
    elif case['events'] == 'subclass':
        cls.events = custom_events(2)
        cls = type('Sub', (cls,), {'events': custom_events(1)})
        configured = custom_events(1)
    return cls, flags, configured


def cases(tier):
    k = gen.idx
    bad = st.sampled_from(['delmissing', 'popmissing', 'detachmissing',
                           'invalid', 'baduuid', 'badinsert', 'badswap'])
    ops = [
        (6, gen.op('set', k, k, k)), (3, gen.op('del', k, k)),
        (4, gen.op('detach', k, k)), (2, gen.op('pop', k, k)),
        (1, gen.op('popitem', k)), (1, gen.op('clear', k)),
        (2, gen.op('setdefault', k, k)),
        (2, gen.op('update', k, st.lists(k, max_size=3))),
        (2, gen.op('insert', k, k, st.integers(0, 3))),
        (1, gen.op('swap', k, k, k)), (2, gen.op('readd', k, k)),
        (3, gen.op('attr', k, k, k)), (2, gen.op('delattr', k, k)),
        (1, gen.op('attrs', k, st.sampled_from(['update', 'clear', 'pop',
                                                'setdefault', 'bad']))),
        (2, gen.op('reads', k)), (4, gen.op('bad', k, bad)),
        (2, gen.op('plain', k, k)), (1, gen.op('instance', k)),
    ]
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=6, unique=True),
        'odict': st.booleans(),
        'order': st.booleans(),
        'events': st.sampled_from(['default', 'default', 'class',
                                   'subclass']),
        'keys': gen.pool(gen.names(), max_size=5),
        'react': gen.one_of(st.none(), st.none(), st.integers(0, 5)),
        'ops': gen.ops(*ops, min_size=5, max_size=gen.size(tier, 20, 50)),
    })


class Model(object):

    def __init__(self, real, alive=True):
        self.real = real
        self.children = {}
        self.attrs = {}
        self.alive = alive
        self.events = None


class Driver(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.cls, self.flags, self.events = make_class(case)
        self.keys = case['keys']
        self.want = []
        self.problems = []
        self.react = case['react']
        self.count = 0
        self.kinds = set()
        lifelog.install(self.hook)
        self.root = self.new('root')
        self.free = []
        self.settle('creation')

    # events

    def hook(self, ob, event):
        """The change took effect already; checked when notified."""
        from zope.lifecycleevent.interfaces import (
            IObjectAddedEvent, IObjectRemovedEvent)
        try:
            if IObjectAddedEvent.providedBy(event):
                parent, name = event.newParent, event.newName
                check(name in list(parent.keys())
                      and parent[name] is event.object,
                      'added event before the child is there')
                if 'Adopt' in self.flags:
                    same(event.object.parent, parent,
                         'parent at added event')
                    eq(event.object.name, name, 'name at added event')
                if 'Reference' in self.flags:
                    same(parent.node(event.object.uuid), event.object,
                         'node() at added event')
            elif IObjectRemovedEvent.providedBy(event):
                parent, name = event.oldParent, event.oldName
                check(name not in list(parent.keys()),
                      'removed event while the child is still there')
                if 'Reference' in self.flags and self.events['removed'] \
                        is type(event):
                    same(parent.node(event.object.uuid), None,
                         'node() at removed event')
            elif self.state is not None:
                self.state()
        except Violation as e:
            self.problems.append(e)
        if self.react is not None:
            self.reaction(event)

    state = None

    def reaction(self, event):
        """A handler which changes another tree."""
        other = self.other
        if other is None or self.reacting:
            return
        self.reacting = True
        try:
            if self.react % 3 == 0:
                other['x%d' % len(other)] = self.plain_child()
            elif self.react % 3 == 1 and len(other):
                other.detach(list(other.keys())[0])
            elif self.react % 3 == 2:
                try:
                    other.detach('missing')
                except KeyError:
                    pass
        finally:
            self.reacting = False
    other = None
    reacting = False

    def plain_child(self):
        return classes.shipped('Node' if 'Reference' in self.flags
                               else 'BaseNode')()

    def expect(self, model, kind, ob, parent=None, name=None):
        if model.alive:
            self.want.append((model.events or self.events, kind, ob, parent,
                              name))

    def settle(self, what):
        from node import interfaces
        got = lifelog.take()
        if self.other is not None:
            got = [x for x in got if x[0].object is not self.other
                   and getattr(x[0], 'newParent', None) is not self.other
                   and getattr(x[0], 'oldParent', None) is not self.other]
        if self.problems:
            raise self.problems[0]
        names = [type(e).__name__ for e, ob in got]
        eq(names, [ev[kind].__name__ for ev, kind, o, p, n in self.want],
           'events of ' + what)
        for (event, ob), (events, kind, node, parent, name) in zip(
                got, self.want):
            same(type(event), events[kind], 'event class')
            check(getattr(interfaces, 'INode%sEvent' % kind.capitalize())
                  .providedBy(event), 'interface of event %s', kind)
            same(event.object, node, 'object of ' + kind)
            same(ob, node, 'object handlers of %s are looked up for' % kind)
            if kind == 'added':
                same(event.newParent, parent, 'newParent')
                eq(event.newName, name, 'newName')
                same(event.oldParent, None, 'oldParent of added')
            elif kind in ('removed', 'detached'):
                same(event.oldParent, parent, 'oldParent')
                eq(event.oldName, name, 'oldName')
                same(event.newParent, None, 'newParent of ' + kind)
            self.kinds.add(kind)
        self.want = []
        self.state = None

    # tree

    def new(self, name=None):
        real = self.cls(name=name)
        self.want.append((self.events, 'created', real, None, None))
        return Model(real)

    def walk(self, model=None):
        model = model or self.root
        res = [model]
        for child in model.children.values():
            if isinstance(child, Model):
                res.extend(self.walk(child))
        return res

    def pick(self, i):
        return gen.pick(self.walk(), i)

    def key(self, i):
        return gen.pick(self.keys, i)

    def do_set(self, n, k, i):
        model, key = self.pick(n), self.key(k)
        if 'Reference' in self.flags and key in model.children:
            return
        if len(self.walk()) > 25:
            return
        if i % 5 == 4 and 'NodeChildValidate' not in self.flags \
                and 'Reference' not in self.flags \
                and 'Adopt' not in self.flags and model.alive:
            # objects other than nodes are notified as well
            value = [None, 'text', 5][i % 3]
            model.real[key] = value
            model.children[key] = value
            self.expect(model, 'added', value, model.real, key)
            self.ctx.label('value')
            return
        child = self.new()
        model.real[key] = child.real
        model.children[key] = child
        self.expect(model, 'added', child.real, model.real, key)

    def do_plain(self, n, k):
        """Subtrees which are not lifecycle aware."""
        model, key = self.pick(n), self.key(k)
        if key in model.children:
            return
        child = Model(self.plain_child(), False)
        model.real[key] = child.real
        model.children[key] = child
        self.expect(model, 'added', child.real, model.real, key)

    def do_setdefault(self, n, k):
        model, key = self.pick(n), self.key(k)
        child = self.new()
        got = model.real.setdefault(key, child.real)
        if key not in model.children:
            same(got, child.real, 'setdefault()')
            model.children[key] = child
            self.expect(model, 'added', child.real, model.real, key)

    def do_update(self, n, ks):
        model = self.pick(n)
        data = {}
        for k in ks:
            key = self.key(k)
            if key in model.children or key in data:
                continue
            data[key] = self.new()
        model.real.update((k, v.real) for k, v in data.items())
        for key, child in data.items():
            model.children[key] = child
            self.expect(model, 'added', child.real, model.real, key)

    def real(self, child):
        return child.real if isinstance(child, Model) else child

    def gone(self, model, key, kind):
        child = model.children.pop(key)
        self.expect(model, kind, self.real(child), model.real, key)
        if isinstance(child, Model):
            self.free.append(child)
        return child

    def child_key(self, model, i):
        return gen.pick(list(model.children), i)

    def do_del(self, n, i):
        model = self.pick(n)
        key = self.child_key(model, i)
        if key is not None:
            del model.real[key]
            self.gone(model, key, 'removed')

    def do_pop(self, n, i):
        model = self.pick(n)
        key = self.child_key(model, i)
        if key is not None:
            got = model.real.pop(key)
            same(got, self.real(self.gone(model, key, 'removed')), 'pop()')

    def do_detach(self, n, i):
        model = self.pick(n)
        key = self.child_key(model, i)
        if key is None or ('Reference' in self.flags and not isinstance(
                model.children[key], Model)):
            return
        got = model.real.detach(key)
        same(got, self.real(self.gone(model, key, 'detached')), 'detach()')

    def do_popitem(self, n):
        model = self.pick(n)
        if model.children:
            key, value = model.real.popitem()
            check(key in model.children, 'popitem() gave %r', key)
            same(value, self.real(self.gone(model, key, 'removed')),
                 'popitem()')

    def do_clear(self, n):
        model = self.pick(n)
        keys = list(model.real.keys())
        model.real.clear()
        for key in keys:
            self.gone(model, key, 'removed')

    def do_readd(self, n, k):
        """A removed subtree is added again."""
        model, key = self.pick(n), self.key(k)
        if key in model.children or not self.free:
            return
        child = self.free.pop(k % len(self.free))
        if any(x is child for x in self.walk()):
            return
        model.real[key] = child.real
        model.children[key] = child
        self.expect(model, 'added', child.real, model.real, key)
        self.ctx.label('readded')

    def do_insert(self, n, k, how):
        model, key = self.pick(n), self.key(k)
        if not self.ordered(model) or key in model.children:
            return
        child = self.new(key)
        if how == 0 or not model.children:
            model.real.insertfirst(child.real)
        elif how == 1:
            model.real.insertlast(child.real)
        else:
            ref = list(model.children.values())[0]
            if how == 2:
                model.real.insertbefore(child.real, ref.real)
            else:
                model.real.insertafter(child.real, ref.real)
        model.children[key] = child
        self.expect(model, 'added', child.real, model.real, key)
        self.ctx.label('inserted')

    def ordered(self, model):
        return 'Order' in self.flags and 'Adopt' in self.flags \
            and model.alive and all(isinstance(x, Model)
                                    for x in model.children.values())

    def do_swap(self, n, i, j):
        model = self.pick(n)
        if self.ordered(model) and len(model.children) > 1:
            a = model.children[self.child_key(model, i)]
            b = model.children[self.child_key(model, j)]
            if a is not b:
                model.real.swap(a.real, b.real)

    def attributed(self, n):
        if 'Attributes' not in self.flags:
            return None
        return gen.pick([x for x in self.walk() if x.alive], n)

    def do_attr(self, n, k, v):
        model = self.attributed(n)
        if model is None:
            return
        key = self.key(k)
        value = [None, 0, '', 'text', [1], 5][v % 6]

        def state():
            same(model.real.attrs[key], value, 'attribute at modified event')
        self.state = state
        model.real.attrs[key] = value
        model.attrs[key] = value
        self.expect(model, 'modified', model.real)

    def do_delattr(self, n, k):
        model = self.attributed(n)
        if model is None:
            return
        key = self.key(k)

        def state():
            check(key not in model.real.attrs.keys(),
                  'attribute still there at modified event')
        if key in model.attrs:
            self.state = state
            del model.real.attrs[key]
            del model.attrs[key]
            self.expect(model, 'modified', model.real)
        else:
            raises(KeyError, model.real.attrs.__delitem__, key)

    def do_attrs(self, n, how):
        model = self.attributed(n)
        if model is None:
            return
        attrs = model.real.attrs
        if how == 'update':
            attrs.update([('u1', 1), ('u2', 2)])
            model.attrs.update(u1=1, u2=2)
            changes = 2
        elif how == 'clear':
            changes = len(model.attrs)
            attrs.clear()
            model.attrs.clear()
        elif how == 'pop':
            changes = 0
            if model.attrs:
                attrs.popitem()
                model.attrs.popitem()
                changes = 1
        elif how == 'setdefault':
            changes = 0 if 'u1' in model.attrs else 1
            attrs.setdefault('u1', 5)
            model.attrs.setdefault('u1', 5)
        else:
            raises(TypeError, attrs.__setitem__, [], 1)
            changes = 0
        for _ in range(changes):
            self.expect(model, 'modified', model.real)

    def do_instance(self, n):
        """Event classes may be configured on one node."""
        model = self.pick(n)
        if model.alive:
            model.real.events = custom_events(3)
            model.events = custom_events(3)

    def do_reads(self, n):
        real = self.pick(n).real
        keys = list(real.keys())
        list(real.values()), list(real.items()), len(real)
        for key in keys + ['missing']:
            real.get(key)
            key in real
        real.treerepr()
        real.path, real.root, real.parent, real.name
        if hasattr(real, 'attrs'):
            list(real.attrs.items())

    def do_bad(self, n, how):
        model = self.pick(n)
        real = model.real
        if how == 'delmissing':
            raises(KeyError, real.__delitem__, 'missing')
        elif how == 'popmissing':
            raises(KeyError, real.pop, 'missing')
            same(real.pop('missing', None), None, 'pop()')
        elif how == 'detachmissing':
            raises(KeyError, real.detach, 'missing')
        elif how == 'invalid':
            if 'NodeChildValidate' in self.flags:
                raises(ValueError, real.__setitem__, 'x', 'no node')
                raises(ValueError, real.__setitem__, 'x', dict)
            else:
                child = self.new()
                raises(TypeError, real.__setitem__, [], child.real)
        elif how == 'baduuid':
            if 'Reference' in self.flags and model.children:
                twin = self.new()
                other = self.walk()[-1].real
                twin.real.uuid = other.uuid
                raises(ValueError, real.__setitem__, 'twin', twin.real)
                self.ctx.label('baduuid')
        elif how == 'badinsert':
            if self.ordered(model) and model.children:
                child = self.new()
                raises(ValueError, real.insertlast, child.real)
                child.real.__name__ = list(model.children)[0]
                raises(ValueError, real.insertfirst, child.real)
                self.ctx.label('badinsert')
        elif how == 'badswap':
            if self.ordered(model) and model.children:
                child = self.new('foreign')
                ref = list(model.children.values())[0]
                if 'foreign' not in model.children:
                    raises((KeyError, ValueError), real.swap, child.real,
                           ref.real)

    def step(self, op):
        getattr(self, 'do_' + op[0])(*op[1:])
        self.settle(op[0] + (' ' + op[2] if op[0] == 'bad' else ''))
        self.ctx.label(op[0])
        for model in self.walk():
            eq(set(model.real.keys()), set(model.children), 'children')


def run(case, ctx):
    if any(gen.is_ns(key) for key in case['keys']):
        return
    driver = Driver(case, ctx)
    if case['react'] is not None:
        driver.reacting = True
        driver.other = driver.cls(name='other')
        for i in range(5):
            driver.other['c%d' % i] = driver.plain_child()
        driver.reacting = False
        lifelog.take()
        ctx.label('handler-changes-tree')
    for op in case['ops']:
        driver.step(op)
    ctx.hit(len(driver.kinds & set(['added', 'removed', 'detached',
                                    'modified'])) >= 2)


PROP = Prop(
    'P23', [Sub('histories', cases, run, 22400)],
    rule='Histories of mapping operations, detachments, ordered insertions, '
         'attribute changes, reads and operations which fail, on trees of a '
         'random lifecycle aware composition with default, custom, '
         'overridden or per node event classes and with subtrees that are '
         'not lifecycle aware; the zope events of each operation are '
         'compared with the expected ones, the state of the tree is checked '
         'when the event arrives, handlers may change another tree. '
         'Non-trivial: two different kinds of change were notified.',
    assumptions=['replacing a child notifies that the new one was added',
                 'nodespaces are not children and not judged'])
