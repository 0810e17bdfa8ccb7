# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import evworld as w
from vt import gen
from vt.core import Prop, Sub


def cases(tier):
    crossed = [w.open_, w.close, w.reopen, w.close]
    basic = [w.fire, w.fire, w.set_, w.set_, w.create, w.delete,
             w.raise_, w.bind] + crossed
    inner = w.suppressing(*basic)
    react = w.contexts(w.bodies(w.fire, w.set_, w.raise_, max_size=2)) + [
        w.open_, w.close]
    return w.cases(
        w.classes(), w.subs(w.fire, w.set_, *react),
        st.lists(gen.one_of(st.just([]), w.bodies(w.set_, *react, max_size=2)),
                 max_size=3),
        w.new, w.bind, w.fire, w.fire, w.set_, w.delete, w.raise_, *crossed,
        *w.contexts(inner), size=12,
        binds=gen.one_of(w.bind, w.bindattr))


def run(case, ctx):
    world = w.compare(case, ctx)
    ctx.label(*('log:' + x[0] for x in world.log))
    levels = [x[1] for x in world.log if x[0] == 'level']
    if levels:
        ctx.label('level%d' % max(levels))
    ctx.hit(len(levels) >= 2 and max(levels) >= 2 and
            any(x[0] in ('sub', 'deco') for x in world.log))


PROP = Prop(
    'P26', [Sub('histories', cases, run, 12000)],
    rule='Scripts with nested suppress_events contexts (all, one, several or '
         'no events, created early, reused, nested in themselves, left by '
         'exceptions, entered by subscribers, left in other order) around dispatching events and '
         'setting event attributes of several dispatchers; calls, attribute '
         'values and recursion levels are compared with a model running the '
         'same script. Non-trivial: at least two nested contexts and a '
         'subscriber called.')
