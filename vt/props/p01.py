# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub
from vt.mapmodel import MapDriver, map_ops

TYPES = ['BaseNode', 'OrderedNode', 'Node', 'AttributedNode', 'MyNode']


def cases(tier):
    n = gen.size(tier, 25, 60)
    history = gen.one_of(gen.ops(*map_ops(), max_size=12),
                        gen.ops(*map_ops(), min_size=8, max_size=n))
    return st.fixed_dictionaries({
        'type': st.sampled_from(TYPES),
        'sub': st.booleans(),
        'keys': gen.pool(gen.anykeys()),
        'ops': history,
        'reads': gen.reads(),
    })


def run(case, ctx):
    cls = classes.shipped(case['type'])
    if case['sub']:
        cls = type('Sub' + case['type'], (cls,), {})
    ctx.label(case['type'])
    kinds = [cls, classes.shipped('AttributedNode'), classes.shipped('Node')]
    if case['type'] not in classes.REF_TYPES:
        kinds.extend([classes.shipped('BaseNode'),
                      classes.shipped('OrderedNode')])
    driver = MapDriver(
        cls(name='root'), case['keys'], lambda i: kinds[i % len(kinds)](),
        ordered=case['type'] not in classes.UNORDERED, ctx=ctx,
        node_factory=classes.shipped('OrderedNode'))
    drive(driver, case, ctx)


def drive(driver, case, ctx):
    if gen.due(case, 0):
        driver.check()
    for i, op in enumerate(case['ops']):
        due = gen.due(case, i)
        driver.step(op, not due)
        if due:
            driver.check()
    if not gen.due(case, len(case['ops'])):
        driver.check()
    ctx.hit(driver.mutations >= 2)
    driver.drain()


def attr_cases(tier):
    return st.fixed_dictionaries({
        'keys': gen.pool(gen.anykeys(ns=True)),
        'values': st.lists(gen.one_of(
            gen.json_values(),
            st.sampled_from([None, None, 0, '', False, [], {}])),
            min_size=1, max_size=6),
        'ops': gen.ops(*map_ops(), max_size=gen.size(tier, 20, 50)),
        'reads': gen.reads(),
    })


def run_attrs(case, ctx):
    from node.utils import UNSET
    owner = classes.shipped('AttributedNode')(name='owner')
    values = case['values'] + [UNSET, object(), owner.__class__, None, len]

    def factory(i):
        if i % 5 == 4:
            return classes.shipped('BaseNode')()
        return values[i % len(values)]
    driver = MapDriver(owner.attrs, case['keys'], factory, ordered=True,
                       ctx=ctx, reuse=False, raw=True)
    drive(driver, case, ctx)


PROP = Prop(
    'P01', [Sub('nodes', cases, run, 15000),
            Sub('attributes', attr_cases, run_attrs, 9000)],
    rule='Histories of mapping operations (set, del, get, pop, popitem, '
         'setdefault, update in 9 forms, clear, bulk fill) over up to 7 keys '
         'of any hashable kind on one node, compared with a dict after each '
         'or only some steps and drained from the end. Non-trivial: at least two '
         'successful mutations.',
    assumptions=['dict of CPython is the reference'])
