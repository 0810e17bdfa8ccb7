# -*- coding: utf-8 -*-
"""Scripts on event dispatchers, run on the real code and on a model.

A case describes classes, subscribers with what they do when called, and a
script. ``World`` runs the script on either backend and logs every call,
result and exception; the logs must be equal.
"""
from hypothesis import strategies as st

from node.base import AttributedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import UnknownEvent
from node.behaviors import suppress_events
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.events import EventDispatcher
from node.utils import UNSET
from plumber import plumbing

from vt import gen

EVENTS = ['e0', 'e1', 'e2', 'e3', '', 'a b', 'p', 'q', 'r']
ATTRS = ['p', 'q', 'r']
KINDS = ['object', 'dispatcher', 'node', 'flat']
NODES = ('node', 'flat')
VALUES = [0, 1, True, 1.0, '', 'x', None, [], [1], UNSET, float('nan'), 2]


class Boom(BaseException):
    """Raised by subscribers and in contexts, also as other exceptions."""


BOOMS = [Boom] + [type('Boom' + x.__name__, (Boom, x), {}) for x in (
    Exception, KeyError, StopIteration, GeneratorExit, RuntimeError,
    ValueError, AttributeError, KeyboardInterrupt, SystemExit)]


# ---------------------------------------------------------------------------
# model

class ModelSuppress(object):
    """Stack of the event sets suppressed at the moment."""

    def __init__(self):
        self.stack = []

    def enter(self, events):
        self.stack.append([events])
        return self.stack[-1]

    def leave(self, entry):
        self.stack = [x for x in self.stack if x is not entry]

    def muted(self, event):
        return any(x is None or event in x for x, in self.stack)


class ModelDispatcher(object):

    def __init__(self, world, known, attrs):
        self.world = world
        self.known = set(known)
        self.attrs = attrs
        self.subs = {}
        self.values = {}

    def register_event(self, event):
        self.known.add(event)

    def bind(self, **kw):
        for event, sub in kw.items():
            if event not in self.known:
                raise UnknownEvent(event)
            subs = self.subs.setdefault(event, [])
            if sub not in subs:
                self.subs[event] = subs + [sub]

    def unbind(self, event=None, subscriber=None):
        for key in list(self.subs):
            if event is None or event == key:
                self.subs[key] = [
                    x for x in self.subs[key]
                    if subscriber is not None and x != subscriber]

    def dispatch(self, event, *args, **kw):
        self.notify([], event, *args, **kw)

    def notify(self, decorated, event, *args, **kw):
        if self.world.suppress.muted(event):
            return
        for func in decorated:
            func(self, *args)
        for func in self.subs.get(event, []):
            func(*args, **kw)

    def read(self, name):
        return self.values.get(name, self.attrs[name]['default'])

    def write(self, name, value):
        attr = self.attrs[name]
        old = self.read(name)
        self.values[name] = value
        if attr['always'] or value != old:
            self.notify([self.world.decorated(i) for i in attr['subs']],
                        name, value)

    def delete(self, name):
        del self.values[name]
        self.notify([], name, UNSET)


# ---------------------------------------------------------------------------
# classes

def resolve(specs):
    """Add to each spec what it inherits."""
    res = []
    for i, spec in enumerate(specs):
        spec = dict(spec)
        base = None
        if spec['base'] is not None and res:
            base = res[spec['base'] % len(res)]
        spec['parent'] = base
        spec['kind'] = base['kind'] if base else spec['kind']
        attrs = dict(base['attrs']) if base else {}
        own = {}
        for attr in spec['own']:
            attr = dict(attr)
            if attr['name'] in own:
                continue
            if spec['kind'] in NODES:
                attr['storage'] = ['__dict__', 'attrs'][attr['storage'] % 2]
            else:
                attr['storage'] = ['__dict__', 'data'][attr['storage'] % 2]
            attr['default'] = VALUES[attr['default'] % len(VALUES)]
            own[attr['name']] = attr
        attrs.update(own)
        spec['own'] = own
        spec['attrs'] = attrs
        inherited = set(base['known']) | base['unclear'] if base else set()
        if spec['events'] is not None:
            spec['known'] = set(spec['events']) | set(own)
            # whether events of the base are known as well is not specified
            spec['unclear'] = inherited - spec['known']
        else:
            spec['known'] = set(base['known'] if base else ()) | set(own)
            spec['unclear'] = (base['unclear'] if base else set()) \
                - spec['known']
        res.append(spec)
    return res


def real_class(spec, real, world):
    dct = {}
    for name, attr in spec['own'].items():
        kw = {}
        if attr['default'] is not UNSET or attr['explicit']:
            kw['default'] = attr['default']
        if attr['storage'] != '__dict__' or attr['explicit']:
            kw['storage'] = attr['storage']
        if attr['always'] or attr['explicit']:
            kw['always_dispatch'] = attr['always']
        descriptor = EventAttribute(**kw)
        for n, i in enumerate(attr['subs']):
            func = world.decorated(i)
            got = descriptor.subscriber(func)
            assert got is func
            dct['on_%s_%d' % (name, n)] = got
        dct[name] = descriptor
    if spec['events'] is not None:
        dct['__events__'] = world.events_list(spec['events'])
    if spec['parent'] is not None:
        base = real[id(spec['parent'])]
        if spec['plumb']:
            return plumbing(Events)(type(base)('Sub', (base,), dct))
        return type(base)('Sub', (base,), dct)
    if spec['kind'] == 'dispatcher':
        def __init__(self):
            self.data = {}
        dct['__init__'] = __init__
        return type(EventDispatcher)('Dispatcher', (EventDispatcher,), dct)
    if spec['kind'] == 'node':
        return plumbing(Events)(
            type(AttributedNode)('Node', (AttributedNode,), dct))
    if spec['kind'] == 'flat':
        return plumbing(Nodespaces, Adopt, Attributes, Events, DefaultInit,
                        Nodify, DictStorage)(type('Flat', (object,), dct))

    def __init__(self):
        self.data = {}
    dct['__init__'] = __init__
    return plumbing(Events)(type('Plain', (object,), dct))


# ---------------------------------------------------------------------------
# running

class Method(object):
    """Bound methods are equal, but not the same on each access."""

    def __init__(self, func):
        self.func = func

    def method(self, *args, **kw):
        self.func(*args, **kw)


class Callable(Method):

    def __call__(self, *args, **kw):
        self.func(*args, **kw)


class Unhashable(Callable):
    """Equal to others for the same function."""

    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.func is other.func

    __hash__ = None


class World(object):

    def __init__(self, case, real, ctx=None, share=None):
        """share is a world whose classes are used."""
        self.case = case
        self.point = None
        self.route = lambda: self
        self.is_real = real
        self.ctx = ctx
        self.log = []
        self.depth = 0
        self.calls = 0
        self.dispatchers = []
        self.suppress = ModelSuppress()
        self.contexts = []
        self.opened = []
        self.registered = {}
        self.bound = []
        self.shared = {}
        self.subs = []
        self.decos = {}
        for i, kind in enumerate(case['subs']):
            self.subs.append(self.subscriber(i, kind[0]))
        if share is not None:
            self.specs, self.classes = share.specs, share.classes
            return
        self.specs = resolve(case['classes'])
        self.classes = {}
        if real:
            for spec in self.specs:
                self.classes[id(spec)] = real_class(spec, self.classes, self)

    def events_list(self, events):
        """Classes may be given the same list."""
        return self.shared.setdefault(tuple(events), list(events))

    # subscribers

    def subscriber(self, i, kind):
        def func(*args, **kw):
            self.called('sub', i, None, args, kw)
        if kind % 4 == 0:
            return lambda: func
        if kind % 4 == 1:
            holder = Method(func)
            return lambda: holder.method
        if kind % 4 == 3:
            return lambda: Unhashable(func)
        holder = Callable(func)
        return lambda: holder

    def decorated(self, i):
        if i not in self.decos:
            def func(ob, *args, **kw):
                self.route().called('deco', i, ob, args, kw)
            self.decos[i] = func
        return self.decos[i]

    def called(self, what, i, ob, args, kw):
        self.calls += 1
        if self.calls > 400:
            raise Boom('calls')
        self.log.append([what, i, None if ob is None else self.index(ob),
                         [self.tag(x) for x in args],
                         {k: self.tag(x) for k, x in kw.items()},
                         self.values()])
        actions = self.case['subs'][i % len(self.case['subs'])][1] \
            if what == 'sub' else \
            self.case['decos'][i % len(self.case['decos'])] \
            if self.case['decos'] else []
        if self.depth > 3:
            return
        self.depth += 1
        try:
            for action in actions:
                self.step(action)
        finally:
            self.depth -= 1

    def index(self, ob):
        for i, (spec, x) in enumerate(self.dispatchers):
            if x is ob:
                return i
        return 'unknown'

    @staticmethod
    def tag(value):
        return '%s %r' % (type(value).__name__, value)

    def values(self):
        return [[self.tag(self.read(ob, name)) for name in spec['attrs']]
                for spec, ob in self.dispatchers]

    # backends

    def read(self, ob, name):
        return getattr(ob, name) if self.is_real else ob.read(name)

    def write(self, ob, name, value):
        if self.is_real:
            setattr(ob, name, value)
        else:
            ob.write(name, value)

    def delete(self, ob, name):
        if self.is_real:
            delattr(ob, name)
        else:
            ob.delete(name)

    def stored(self, spec, ob, name):
        if not self.is_real:
            return name in ob.values
        storage = getattr(ob, spec['attrs'][name]['storage'])
        return name in storage

    def context(self, events, form):
        """events is None for all."""
        if not self.is_real:
            return set(events) if events is not None else None
        if events is None:
            return suppress_events()
        if len(events) == 1 and form % 3 == 0:
            return suppress_events(events[0])
        if form % 3 == 1:
            return suppress_events(tuple(events))
        return suppress_events(list(events))

    # script

    def pick(self, d):
        return gen.pick(self.dispatchers, d)

    def run(self, script):
        for op in script:
            try:
                self.step(op)
            except Boom as e:
                self.log.append(['boom', str(e)])

    def step(self, op):
        if op[0] != 'new' and not self.dispatchers:
            return
        if self.point is not None:
            self.point()
        getattr(self, 'do_' + op[0])(*op[1:])

    def do_new(self, c):
        if len(self.dispatchers) > 6:
            return
        spec = gen.pick(self.specs, c)
        if self.is_real:
            ob = self.classes[id(spec)]()
        else:
            ob = ModelDispatcher(self, spec['known'], spec['attrs'])
        self.dispatchers.append((spec, ob))

    def event(self, ob, spec, e):
        """Numbers stand for a known event of the dispatcher."""
        if isinstance(e, str):
            return e
        known = sorted(spec['known'] | self.registered.get(id(ob), set()))
        return known[e % len(known)] if known else 'e0'

    def do_register(self, d, e):
        spec, ob = self.pick(d)
        ob.register_event(e)
        self.registered.setdefault(id(ob), set()).add(e)

    def do_bind(self, d, pairs):
        spec, ob = self.pick(d)
        pairs = [(self.event(ob, spec, e), s) for e, s in pairs]
        for e, s in pairs:
            if e in spec['unclear']:
                return
        kw = {e: gen.pick(self.subs, s)() for e, s in pairs}
        if len(kw) > 1:
            # what becomes of the others if one is unknown is not specified
            known = spec['known'] | self.registered.get(id(ob), set())
            if any(e not in known for e in kw):
                return
        try:
            ob.bind(**kw)
        except UnknownEvent as e:
            self.log.append(['unknown', sorted(kw)])
            assert isinstance(e, ValueError)
        else:
            self.log.append(['bound', sorted(kw)])
            self.bound.extend((d, e) for e in sorted(kw))

    def do_bindattr(self, d, a, s):
        spec, ob = self.pick(d)
        name = gen.pick(list(spec['attrs']), a)
        if name is not None:
            self.do_bind(d, [(name, s)])

    def do_fire(self, i, args, kw):
        """Dispatch an event which something was bound to."""
        if self.bound:
            d, e = gen.pick(self.bound, i)
            self.do_dispatch(d, e, args, kw)

    def do_unbind(self, d, e, s):
        spec, ob = self.pick(d)
        kw = {}
        if e is not None:
            kw['event'] = self.event(ob, spec, e)
        if s is not None:
            kw['subscriber'] = gen.pick(self.subs, s)()
        ob.unbind(**kw)

    def do_dispatch(self, d, e, args, kw):
        spec, ob = self.pick(d)
        before = self.calls
        ob.dispatch(self.event(ob, spec, e), *args, **kw)
        if self.ctx:
            self.ctx.label('calls' if self.calls > before else 'nocalls')

    def do_set(self, d, a, v):
        spec, ob = self.pick(d)
        name = gen.pick(list(spec['attrs']), a)
        if name is None:
            return
        self.log.append(['set'])
        self.write(ob, name, VALUES[v % len(VALUES)])
        self.log.append(['values', self.values()])

    def do_delete(self, d, a):
        spec, ob = self.pick(d)
        name = gen.pick(list(spec['attrs']), a)
        if name is None or not self.stored(spec, ob, name):
            return
        self.log.append(['delete'])
        self.delete(ob, name)
        self.log.append(['values', self.values()])

    def do_classread(self, d):
        """The class shows the default."""
        spec, ob = self.pick(d)
        self.log.append(['class', [
            self.tag(getattr(type(ob), name) if self.is_real
                     else attr['default'])
            for name, attr in spec['attrs'].items()]])

    def do_raise(self, i=0):
        raise BOOMS[i % len(BOOMS)]('raised %d' % i)

    def do_try(self, body):
        try:
            for op in body:
                self.step(op)
        except Boom as e:
            self.log.append(['caught', str(e)])

    def do_create(self, events, form):
        """A context which may be entered later, or never."""
        if len(self.contexts) < 5:
            self.contexts.append(self.context(events, form))

    def do_use(self, i, body):
        if self.contexts:
            self.within(gen.pick(self.contexts, i), body)

    def do_suppress(self, events, form, body):
        self.within(self.context(events, form), body)

    def do_open(self, events, form):
        """Enter a context which is left anytime, in any order."""
        if len(self.opened) < 4:
            self.open(self.context(events, form))

    def do_reopen(self, i):
        if self.contexts and len(self.opened) < 4:
            self.open(gen.pick(self.contexts, i))

    def open(self, context):
        if self.is_real:
            self.log.append(['level', context.__enter__()])
            self.opened.append(context)
        else:
            self.opened.append(self.suppress.enter(context))
            self.log.append(['level', len(self.suppress.stack)])
        if self.ctx:
            self.ctx.label('open')

    def do_close(self, i):
        if self.opened:
            i %= len(self.opened)
            if self.ctx and i + 1 < len(self.opened):
                self.ctx.label('crossed')
            context = self.opened.pop(i)
            if self.is_real:
                context.__exit__(None, None, None)
            else:
                self.suppress.leave(context)

    def close(self):
        while self.opened:
            self.do_close(-1)

    def within(self, context, body):
        if self.ctx:
            self.ctx.label('suppress')
        if not self.is_real:
            entry = self.suppress.enter(context)
            self.log.append(['level', len(self.suppress.stack)])
            try:
                for op in body:
                    self.step(op)
            finally:
                self.suppress.leave(entry)
            return
        with context as level:
            self.log.append(['level', level])
            for op in body:
                self.step(op)


def compare(case, ctx):
    """Run the case on both backends; return the model world."""
    from vt.core import Violation, short
    # leftovers of an earlier case would show here
    with suppress_events(()) as level:
        if level != 1:
            raise Violation('suppression level %s before the case' % level)
    real, model = World(case, True, ctx), World(case, False)
    model.run(case['script'])
    model.close()
    try:
        real.run(case['script'])
    finally:
        real.close()
    for i, (got, want) in enumerate(zip(real.log, model.log)):
        if got != want:
            raise Violation('log entry %d: got %s, want %s'
                            % (i, short(got), short(want)))
    if len(real.log) != len(model.log):
        raise Violation('log: got %s, want %s' % (
            short(real.log[len(model.log):]), short(model.log[len(real.log):])))
    return model


# ---------------------------------------------------------------------------
# generators

ev = st.sampled_from(EVENTS)
evset = gen.one_of(st.none(), st.lists(ev, max_size=3))
idx = gen.idx
small = st.integers(0, 5)
few = st.sampled_from([0, 0, 0, 1, 1, 2, 3])
args = st.lists(st.sampled_from([0, '', None, 'x', [1]]), max_size=3)
kws = st.dictionaries(st.sampled_from(['a', 'b', 'value', 'name']),
                      st.integers(0, 2), max_size=2)

new = gen.op('new', small)
register = gen.op('register', small, ev)
ref = gen.one_of(small, small, small, small, ev)
sub = st.integers(0, 3)
bind = gen.op('bind', few, st.lists(st.tuples(ref, sub).map(list),
                                    min_size=1, max_size=2))
unbind = gen.op('unbind', few, gen.one_of(st.none(), ref, ref),
                gen.one_of(st.none(), sub, sub))
dispatch = gen.op('dispatch', few, ref, args, kws)
fire = gen.op('fire', idx, args, kws)
bindattr = gen.op('bindattr', few, small, sub)
set_ = gen.op('set', few, small, idx)
delete = gen.op('delete', few, small)
classread = gen.op('classread', small)
raise_ = gen.op('raise', gen.one_of(st.just(1), idx))
create = gen.op('create', evset, small)
open_ = gen.op('open', evset, small)
reopen = gen.op('reopen', small)
close = gen.op('close', small)


def bodies(*alternatives, max_size=4):
    return st.lists(gen.one_of(*alternatives), max_size=max_size)


def suppressing(*alternatives):
    """Nested contexts around the alternatives."""
    leaf = bodies(*alternatives)

    def extend(inner):
        return st.lists(gen.one_of(
            *alternatives,
            gen.op('suppress', evset, small, inner),
            gen.op('use', small, inner),
            gen.op('try', inner)), max_size=4)
    return st.recursive(leaf, extend, max_leaves=6)


def contexts(inner):
    return [gen.op('suppress', evset, small, inner),
            gen.op('suppress', evset, small, inner),
            gen.op('use', small, inner), create]


def classes(attrs=True, min_attrs=0):
    attr = st.fixed_dictionaries(dict(
        name=st.sampled_from(ATTRS), default=idx, storage=st.integers(0, 1),
        always=st.booleans(), explicit=st.booleans(),
        subs=st.lists(st.integers(0, 3), max_size=2, unique=True)))
    return st.lists(st.fixed_dictionaries(dict(
        base=gen.one_of(st.none(), st.integers(0, 3)),
        kind=st.sampled_from(KINDS),
        events=gen.one_of(st.none(), st.just(['e0', 'e1']),
                         st.lists(ev, max_size=3, unique=True)),
        plumb=st.booleans(),
        own=st.lists(attr, min_size=min_attrs, max_size=3) if attrs
        else st.just([]))), min_size=1, max_size=4)


def subs(*alternatives):
    """Most subscribers do nothing but log."""
    return st.lists(st.tuples(
        small, gen.one_of(st.just([]), bodies(*alternatives, max_size=2))
    ).map(list), min_size=2, max_size=5)


def cases(classes, subs, decos, *alternatives, size=25, binds=bind):
    """Scripts start with dispatchers that have something bound."""
    start = st.lists(new, min_size=1, max_size=3)
    return st.fixed_dictionaries(dict(
        classes=classes, subs=subs, decos=decos,
        script=st.tuples(start, st.lists(register, min_size=1, max_size=3),
                         st.lists(binds, min_size=2, max_size=6),
                         st.lists(gen.one_of(*alternatives), min_size=5,
                                  max_size=size)).map(
            lambda x: x[0] + x[1] + x[2] + x[3])))
