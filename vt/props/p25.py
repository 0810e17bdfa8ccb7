# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import evworld as w
from vt import gen
from vt.core import Prop, Sub, eq


def cases(tier):
    nested = [w.set_, w.set_, w.set_, w.delete, w.unbind, w.bindattr, w.raise_]
    return w.cases(
        w.classes(min_attrs=1), w.subs(*nested),
        st.lists(gen.one_of(st.just([]), w.bodies(*nested, max_size=2)),
                 max_size=4),
        w.new, w.bind, w.bindattr, w.bindattr, w.set_, w.set_, w.set_, w.set_, w.set_,
        w.delete, w.delete, w.dispatch, w.classread, w.unbind,
        w.gen.op('suppress', w.evset, w.small, w.bodies(w.set_, w.delete)),
        binds=w.bindattr)


def run(case, ctx):
    world = w.compare(case, ctx)
    ctx.label(*('log:' + x[0] for x in world.log))
    kinds = set(x[0] for x in world.log)
    ctx.hit('sub' in kinds and 'deco' in kinds)


# ---------------------------------------------------------------------------
# classes which override dispatch

class Failed(Exception):
    pass


def action():
    n = st.integers(0, 3)
    attr = st.sampled_from('pq')
    return gen.one_of(
        st.tuples(st.just('set'), n, attr, st.integers(0, 3)).map(list),
        st.tuples(st.just('set'), n, attr, st.integers(0, 3)).map(list),
        st.tuples(st.just('fire'), n, st.integers(0, 3)).map(list),
        st.just(['fail']), st.tuples(st.just('del'), n, attr).map(list))


def overridden_cases(tier):
    acts = st.lists(action(), max_size=2)
    return st.fixed_dictionaries({
        'decos': st.integers(1, 2), 'always': st.booleans(),
        'depth': st.integers(1, 2),
        'objects': st.lists(st.fixed_dictionaries(dict(
            before=acts, after=acts, calls=st.booleans())),
            min_size=1, max_size=3),
        'script': st.lists(action(), min_size=1, max_size=8)})


class Real(object):
    """Runs the script on dispatchers."""

    def __init__(self, case):
        from node.behaviors import EventAttribute, Events
        from plumber import plumbing
        self.case = case
        self.log = []
        self.depth = 0
        world = self
        p = EventAttribute(0, always_dispatch=case['always'])
        q = EventAttribute(0)

        def deco(attr, n):
            def sub(self, value):
                world.log.append(('deco', n, attr, self.number, value))
            return attr_of[attr].subscriber(sub)
        attr_of = dict(p=p, q=q)
        for n in range(case['decos']):
            for attr in 'pq':
                deco(attr, n)
        base = plumbing(Events)(type('Base', (object,), dict(
            p=p, q=q, __events__=['e'])))

        class Sub(base):

            def dispatch(self, event, *args, **kw):
                spec = world.case['objects'][self.number]
                nested = world.depth >= world.case['depth']
                world.depth += 1
                try:
                    if not nested:
                        world.run(spec['before'])
                    if spec['calls'] or nested:
                        super(Sub, self).dispatch(event, *args, **kw)
                    if not nested:
                        world.run(spec['after'])
                finally:
                    world.depth -= 1
        self.objects = []
        for i in range(len(case['objects'])):
            ob = Sub() if i < 2 else base()
            ob.number = i
            self.objects.append(ob)
            for name in ('p', 'q', 'e'):
                ob.bind(**{name: self.bound(i, name)})

    def bound(self, i, name):
        def sub(*args):
            self.log.append(('sub', i, name) + args)
        return sub

    def run(self, script):
        for act in script:
            if act[0] == 'fail':
                raise Failed()
            self.act(*act)

    def act(self, what, i, *args):
        ob = self.objects[i % len(self.objects)]
        if what == 'set':
            setattr(ob, args[0], args[1])
        elif what == 'fire':
            ob.dispatch('e', args[0])
        elif args[0] in ob.__dict__:
            delattr(ob, args[0])


class Model(Real):

    def __init__(self, case):
        self.case = case
        self.log = []
        self.depth = 0
        self.objects = [dict(number=i) for i in range(len(case['objects']))]

    def act(self, what, i, *args):
        ob = self.objects[i % len(self.objects)]
        if what == 'set':
            old, ob[args[0]] = ob.get(args[0], 0), args[1]
            if old != args[1] or (args[0] == 'p' and self.case['always']):
                self.dispatch(ob, args[0], args[1], True)
        elif what == 'fire':
            self.dispatch(ob, 'e', args[0], False)
        elif args[0] in ob:
            from node.utils import UNSET
            del ob[args[0]]
            self.dispatch(ob, args[0], UNSET, False)

    def dispatch(self, ob, event, value, deco):
        i = ob['number']
        spec = self.case['objects'][i]
        if i >= 2:
            self.call(ob, event, value, deco)
            return
        nested = self.depth >= self.case['depth']
        self.depth += 1
        try:
            if not nested:
                self.run(spec['before'])
            if spec['calls'] or nested:
                self.call(ob, event, value, deco)
            if not nested:
                self.run(spec['after'])
        finally:
            self.depth -= 1

    def call(self, ob, event, value, deco):
        if deco:
            for n in range(self.case['decos']):
                self.log.append(('deco', n, event, ob['number'], value))
        self.log.append(('sub', ob['number'], event, value))


def run_overridden(case, ctx):
    worlds = Real(case), Model(case)
    for n, act in enumerate(case['script']):
        for world in worlds:
            try:
                world.run([act])
            except Failed:
                world.log.append('failed')
        eq(worlds[0].log, worlds[1].log, 'calls after step %d' % n)
    for ob, model in zip(worlds[0].objects, worlds[1].objects):
        for name in 'pq':
            eq(getattr(ob, name), model.get(name, 0), 'value of ' + name)
    inner = any(act[0] != 'fail' for spec in case['objects'][:2]
                for act in spec['before'])
    ctx.hit(inner and any(x[0] == 'deco' for x in worlds[1].log))


PROP = Prop(
    'P25', [Sub('histories', cases, run, 12000),
            Sub('overridden', overridden_cases, run_overridden, 5000)],
    rule='Classes with event attributes (defaults, storages, '
         'always_dispatch, decorated subscribers, overridden in subclasses) '
         'and scripts of setting and deleting values (equal values of '
         'different types, NaN, UNSET, false ones) on several instances, '
         'directly and from within subscribers, with bound subscribers '
         'coming and going; calls with arguments and all attribute values '
         'seen by them are compared with a model running the same script. '
         'Classes which override dispatch and dispatch, set or fail before '
         'and after (or instead of) dispatching. '
         'Non-trivial: decorated and bound subscribers were called.',
    assumptions=['deleting an attribute that is not set is not judged'])
