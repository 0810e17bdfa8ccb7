# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import evworld as w
from vt import gen
from vt.core import Prop, Sub


def cases(tier):
    inner = gen.one_of(w.bind, w.unbind, w.dispatch, w.register, w.raise_)
    return w.cases(
        w.classes(), w.subs(w.bind, w.unbind, w.unbind, w.dispatch, w.fire,
                            w.register, w.raise_),
        st.just([]),
        w.new, w.register, w.bind, w.bind, w.bind, w.bind, w.unbind, w.unbind,
        w.dispatch, w.fire, w.fire, w.fire, w.fire,
        gen_try(inner))


def gen_try(inner):

    return gen.op('try', st.lists(inner, max_size=3))


def run(case, ctx):
    world = w.compare(case, ctx)
    called = set(x[1] for x in world.log if x[0] == 'sub')
    ctx.label(*('log:' + x[0] for x in world.log))
    ctx.hit(len(called) >= 2)


PROP = Prop(
    'P24', [Sub('histories', cases, run, 12000)],
    rule='Class hierarchies (plain objects, EventDispatcher, nodes; explicit '
         '__events__, also one list for several classes, event attributes) '
         'and scripts of register, bind, unbind, dispatch on up to seven '
         'dispatchers, with subscribers (functions, bound methods, '
         'callables) that bind, unbind, dispatch or raise; the log of calls '
         'is compared with that of a model running the same script. '
         'Non-trivial: two different subscribers were called.',
    assumptions=['a subclass with an own __events__ list: whether it knows '
                 'the events of its base is not judged'])
