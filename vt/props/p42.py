# -*- coding: utf-8 -*-
import gc
import weakref

from hypothesis import strategies as st

from vt import classes, forest, gen
from vt.core import Prop, Sub, check
from vt.mapmodel import MapDriver, map_ops


class Token(object):
    """A value."""


def fresh(func):
    """Collecting garbage does not look at what was there before the case."""
    def wrapper(case, ctx):
        gc.freeze()
        func(case, ctx)
    return wrapper


def released(refs, keep, what, ctx):
    """``refs`` are (weak reference, description), ``keep`` the ids of the
    objects which are still in use.
    """
    gc.collect()
    count = 0
    for ref, text in refs:
        ob = ref()
        if ob is None:
            count += 1
        elif id(ob) not in keep:
            check(False, '%s: %s is still alive, kept by %s', what, text,
                  [type(x).__name__ for x in gc.get_referrers(ob)
                   if x is not refs and not isinstance(x, type(gc))][:5])
    return count


# ---------------------------------------------------------------------------
# forests

READS = ['path', 'lookup', 'index', 'missing', 'copy', 'attrs', 'serialize',
         'treerepr', 'iterate', 'lock']


class Releasing(forest.Forest):

    def __init__(self, *args, **kw):
        forest.Forest.__init__(self, *args, **kw)
        self.refs = []

    def created(self, m, k):
        self.refs.append((weakref.ref(m.real), 'node %d' % m.num))

    def do_attr(self, n, i):
        m = self.node(n)
        if m.kind in forest.ATTRS:
            key = self.key(i)
            value = Token()
            self.refs.append((weakref.ref(value), 'attribute of %d' % m.num))
            m.real.attrs[key] = m.attrs[key] = value
            self.ctx.label('attr')

    def do_noattr(self, n, i):
        m = self.node(n)
        key = self.key(i)
        if key in m.attrs:
            del m.real.attrs[key]
            del m.attrs[key]
            self.ctx.label('noattr')

    def do_refused(self, n, c):
        """What was not accepted is not kept."""
        m, other = self.node(n), Token()
        self.refs.append((weakref.ref(other), 'refused value'))
        try:
            m.real['refused'] = other
        except (ValueError, AttributeError):
            self.ctx.label('refused')
            return
        del m.real['refused']

    def do_read(self, what, n, i):
        from node.interfaces import IReference
        from node.interfaces import IUUIDAware
        from node.utils import node_by_path
        m = self.node(n)
        real = m.real
        key = self.key(i)
        if what == 'path':
            real.path, real.root, real.acquire(Token)
        elif what == 'lookup':
            try:
                node_by_path(real.root, real.path[1:] + [key])
            except KeyError:
                pass
        elif what == 'index' and IReference.providedBy(real):
            real.node(real.uuid), real.index.get(i)
        elif what == 'missing':
            real.get(key), key in real
        elif what == 'copy' and m.parent is None and m.ghost is None:
            new = real.deepcopy()
            self.refs.extend((weakref.ref(x), 'copy of %d' % m.num)
                             for x in [new] + list(new.values()))
            if not IReference.providedBy(real) \
                    and not IUUIDAware.providedBy(real):
                self.refs.append((weakref.ref(real.copy()),
                                  'shallow copy of %d' % m.num))
        elif what == 'attrs' and m.kind in forest.ATTRS:
            real.attrs.path, list(real.nodespaces.values())
        elif what == 'serialize':
            from node.serializer import serialize
            try:
                serialize(real)
            except (TypeError, ValueError):
                pass
        elif what == 'treerepr':
            real.treerepr(), repr(real)
        elif what == 'iterate':
            next(real.itervalues(), None), list(real.values())
        elif what == 'lock':
            from node.locking import TreeLock
            with TreeLock(real):
                len(real)

    def belongs(self, m):
        """Nodes reachable from a node, also by former parents."""
        found = {}
        todo = [m]
        while todo:
            x = todo.pop()
            if id(x) in found:
                continue
            found[id(x)] = x
            todo.extend(x.children.values())
            todo.extend(y for y in (x.parent, x.ghost) if y is not None)
        return list(found.values())


def cases(kinds):
    def strategy(tier):
        n = st.integers(0, 30)
        res = forest.forest_cases(kinds, gen.anykeys(), forest.forest_ops([
            (3, gen.op('attr', n, gen.idx)), (2, gen.op('noattr', n, gen.idx)),
            (1, gen.op('refused', n, n)),
            (5, gen.op('read', st.sampled_from(READS), n, gen.idx)),
        ]), tier, quick=16)
        return st.tuples(res, n).map(list)
    return strategy


def run(overwrite):
    @fresh
    def run(case, ctx):
        history, keep = case
        f = Releasing(history['kinds'], history['keys'], ctx, overwrite)
        f.create(0, name='root')
        for op in history['ops']:
            f.step(op)
        kept = f.belongs(gen.pick(f.roots(), keep))
        reals = [m.real for m in kept]
        values = [x for m in kept for x in m.attrs.values()]
        alive = set(id(x) for x in reals + values)
        refs, removals = f.refs, f.removals
        moves = f.moves
        del f, kept
        count = released(refs, alive, 'after removal', ctx)
        ctx.hit(count >= 1 and removals + moves >= 1)
        if len(reals) > 1:
            ctx.label('kept')
    return run


# ---------------------------------------------------------------------------
# compositions

FLAGS = [x for x in classes.CANONICAL[:-2]] + ['Cache', 'Invalidate']


def composed_cases(tier):
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=8, unique=True),
        'odict': st.booleans(),
        'nonnodes': st.booleans(),
        'fallback': st.booleans(),
        'keys': gen.pool(gen.anykeys()),
        'reads': gen.reads(),
        'ops': gen.ops(*map_ops(fill=5) + [
            (4, gen.op('inval', gen.idx)), (1, gen.op('invalall')),
            (3, gen.op('read', gen.idx)), (2, gen.op('fail', gen.idx)),
        ], min_size=3, max_size=gen.size(tier, 18, 50))})


class Driver(MapDriver):

    def gone(self, value):
        # nothing is kept here
        pass

    def do_inval(self, k):
        if hasattr(self.node, 'invalidate'):
            key = self.key(k)
            if key in self.model:
                self.node.invalidate(key)
                self.model.pop(key)
                self.ctx.label('invalidated')

    def do_invalall(self):
        if hasattr(self.node, 'invalidate'):
            self.node.invalidate()
            self.model.clear()

    def do_read(self, k):
        for i in range(k):
            self.node.get(self.key(i))
        if not all(isinstance(x, type(self.node))
                   for x in self.model.values()):
            # no substitutes below values
            return
        for value in self.node.values():
            if isinstance(value, type(self.node)):
                value.get(self.key(k))

    def do_fail(self, k):
        for value in (Token(), Token, self.node):
            if value is self.node or self.raw:
                continue
            try:
                self.node['refused'] = value
            except ValueError:
                pass


@fresh
def run_composed(case, ctx):
    from vt.props.p02 import composition
    cls, flags, ordered = composition(case)
    ctx.label(*flags)
    if 'VolatileStorageInvalidate' in flags and 'Reference' in flags:
        # volatile storage does not know about the index
        return
    root = cls(name='root')
    raw = case['nonnodes'] or 'NodeChildValidate' not in flags
    if 'Fallback' in flags and case['fallback']:
        root.fallback_key = gen.dk(case['keys'][0])
    child = cls
    refs = []

    def factory(i):
        value = Token() if raw and i % 3 == 1 else child()
        refs.append((weakref.ref(value), 'value %d' % len(refs)))
        return value
    driver = Driver(root, case['keys'], factory, ordered, ctx, raw=raw,
                    reuse=False, overwrite='Reference' not in flags)
    for i, op in enumerate(case['ops']):
        driver.step(op, not gen.due(case, i))
    alive = set(id(x) for x in driver.model.values())
    count = released(refs, alive, 'after a mapping history', ctx)
    ctx.hit(count >= 1 and driver.mutations >= 2)
    if alive:
        ctx.label('some kept')
    refs.append((weakref.ref(root), 'root'))
    del root, driver
    released(refs, (), 'after the root', ctx)


# ---------------------------------------------------------------------------
# event subscribers

def event_cases(tier):
    n = st.integers(0, 5)
    return st.fixed_dictionaries({
        'node': st.booleans(),
        'ops': gen.ops(
            (6, gen.op('bind', n, n, n)), (4, gen.op('unbind', n, n, n)),
            (2, gen.op('unbindall', n)), (2, gen.op('unevent', n, n)),
            (2, gen.op('unsub', n, n)),
            (4, gen.op('dispatch', n, n, st.booleans())),
            (3, gen.op('set', n, n)), (1, gen.op('delete', n)),
            (2, gen.op('suppressed', n, n, st.booleans())),
            min_size=3, max_size=gen.size(tier, 20, 50))})


class Owner(object):

    fail = False

    def call(self, *args, **kw):
        if self.fail:
            self.fail = False
            raise Boom()

    def other(self, *args, **kw):
        pass


class Boom(Exception):
    pass


def dispatcher_class(is_node):
    from node.behaviors import EventAttribute
    from node.behaviors import Events
    from node.base import AttributedNode
    from node.events import EventDispatcher
    from plumber import plumbing
    seen = []
    if is_node:
        @plumbing(Events)
        class Dispatcher(AttributedNode):
            __events__ = ['e0', 'e1', 'e2']
            a = EventAttribute(None, storage='attrs')

            @a.subscriber
            def on_a(self, value):
                seen.append(type(value))
    else:
        class Dispatcher(EventDispatcher):
            __events__ = ['e0', 'e1', 'e2']
            a = EventAttribute(None)

            @a.subscriber
            def on_a(self, value):
                seen.append(type(value))
    return Dispatcher


_classes = {}


@fresh
def run_events(case, ctx):
    from node.behaviors import suppress_events
    if case['node'] not in _classes:
        _classes[case['node']] = dispatcher_class(case['node'])
    cls = _classes[case['node']]
    dispatchers = [cls(), cls()]
    owners = []
    refs = []
    bound = {}        # (dispatcher, event) -> [(owner, name)]
    values = {}

    def value():
        res = Token()
        refs.append((weakref.ref(res), 'argument'))
        return res

    def owner(i):
        while len(owners) <= i:
            owners.append(Owner())
            refs.append((weakref.ref(owners[-1]), 'owner of a subscriber'))
        return owners[i]
    for op in case['ops']:
        what, args = op[0], op[1:]
        n = args[0] % 2
        d = dispatchers[n]
        ctx.label(what)
        if what == 'bind':
            e = 'e%d' % (args[1] % 3)
            o = owner(args[2])
            name = 'call' if args[2] % 2 else 'other'
            d.bind(**{e: getattr(o, name)})
            bound.setdefault((n, e), {})[args[2], name] = 1
        elif what == 'unbind':
            e = 'e%d' % (args[1] % 3)
            name = 'call' if args[2] % 2 else 'other'
            d.unbind(event=e, subscriber=getattr(owner(args[2]), name))
            bound.get((n, e), {}).pop((args[2], name), None)
        elif what == 'unbindall':
            d.unbind()
            for e in range(3):
                bound.pop((n, 'e%d' % e), None)
        elif what == 'unevent':
            e = 'e%d' % (args[1] % 3)
            d.unbind(event=e)
            bound.pop((n, e), None)
        elif what == 'unsub':
            name = 'call' if args[1] % 2 else 'other'
            d.unbind(subscriber=getattr(owner(args[1]), name))
            for e in range(3):
                bound.get((n, 'e%d' % e), {}).pop((args[1], name), None)
        elif what == 'dispatch':
            for o in owners:
                o.fail = args[2]
            try:
                d.dispatch('e%d' % (args[1] % 3), value(), x=value())
            except Boom:
                ctx.label('failed')
            for o in owners:
                o.fail = False
        elif what == 'set':
            values[n] = None
            d.a = values[n] = value() if args[1] else None
        elif what == 'delete':
            if n in values:
                del d.a
                del values[n]
        else:
            try:
                with suppress_events(['a', 'e%d' % (args[1] % 3)]
                                     if args[1] % 2 else 'a'):
                    values[n] = None
                    d.a = values[n] = value()
                    if args[2]:
                        raise Boom()
            except Boom:
                pass
    used = set(i for x in bound.values() for i, _ in x)
    alive = set(id(owners[i]) for i in used)
    alive.update(id(x) for x in values.values())
    del owners[:]
    d = o = None
    count = released(refs, alive, 'after unbinding', ctx)
    ctx.hit(count >= 1 and len(refs) >= 3)
    if used:
        ctx.label('some bound')


PROP = Prop(
    'P42', [Sub('plain', cases(forest.PLAIN), run(True), 14000),
            Sub('references', cases(forest.REFS), run(False), 14000),
            Sub('compositions', composed_cases, run_composed, 20000),
            Sub('events', event_cases, run_events, 12000)],
    rule='Histories of structural changes on forests, of mapping operations '
         'and invalidations on random compositions, and of binding, '
         'dispatching and suppressing events; with reads, lookups, copies, '
         'serialization, locks and refused changes in between. All nodes, '
         'values and subscribers are known by weak reference; after garbage '
         'collection exactly those may be alive which are still in use. '
         'Non-trivial: something was removed and released.',
    assumptions=['a removed node keeps its former parent (known finding of '
                 'P04), so that keeping it keeps the former tree',
                 'assignments to an occupied key of a referencing node are '
                 'excluded (known finding of P07)'])
