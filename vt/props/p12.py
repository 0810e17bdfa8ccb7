# -*- coding: utf-8 -*-
import json

from hypothesis import strategies as st

from vt import sertree
from vt.core import Prop, Sub, check, short
from vt.props.p11 import compare, has_attrs


def cases(tier):
    return st.fixed_dictionaries({
        'trees': st.lists(sertree.trees(tier, True), min_size=1, max_size=2),
        'single': st.booleans(),
        'include_class': st.sampled_from([None, True, False]),
        'values': st.lists(sertree.values(True), max_size=2),
    })


def run(case, ctx):
    from node.serializer import serialize
    specs = [sertree.plan(x) for x in case['trees']]
    nodes = [sertree.make(spec) for spec in specs]
    include = bool(case['include_class'])
    kw = dict(simple_mode=True)
    if case['include_class'] is not None:
        kw['include_class'] = include
    want = [sertree.project(x, include) for x in specs]
    if case['single']:
        data, want = nodes[0], want[0]
    else:
        # nodes within plain data
        data = {'nodes': nodes,
                'values': [sertree.decode_value(x) for x in case['values']]}
        want = {'nodes': want,
                'values': [sertree.plain_value(x, include) for x in case['values']]}
    got = json.loads(serialize(data, **kw))
    check(sertree.exact(got, want), 'simple mode: got %s, want %s',
          short(got), short(want))
    # typed mode is not affected by it, and the nodes are unchanged
    for node, spec in zip(nodes, specs):
        compare(node, spec, 'original')
    check('__node__' in json.loads(serialize(nodes[0])),
          'typed mode after simple mode')
    ctx.label('classes' if include else 'plain')
    ctx.hit(sum(sertree.count(x) for x in specs) >= 2
            and any(has_attrs(x) for x in specs))


PROP = Prop(
    'P12', [Sub('projection', cases, run, 4800)],
    rule='Trees over 10 node types with text and integer names and nested '
         'attribute values including marker-like texts and nodes, alone or '
         'within '
         'plain data, with and without class names, compared with a '
         'projection of the generated specification. Non-trivial: at least '
         'two nodes and one attribute.')
