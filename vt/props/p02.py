# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub
from vt.mapmodel import MapDriver, map_ops
from vt.props.p01 import drive

PREFIX = 'p-'


def cases(tier):
    n = gen.size(tier, 25, 60)
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(classes.CANONICAL[:-2]),
                          max_size=9, unique=True),
        'odict': st.booleans(),
        'nonnodes': st.booleans(),
        'prefix': st.booleans(),
        'keys': gen.pool(gen.anykeys()),
        'ops': gen.one_of(gen.ops(*map_ops(), max_size=10),
                         gen.ops(*map_ops(), min_size=6, max_size=n)),
        'reads': gen.reads(),
    })


def composition(case):
    """Class, flags, whether ordered."""
    flags = list(case['flags'])
    storage = 'OdictStorage' if case['odict'] else 'DictStorage'
    if storage == 'DictStorage' and 'Order' in flags:
        flags.remove('Order')
    flags = classes.normalize(flags)
    attrs = []
    if case.get('nonnodes'):
        attrs.append(('allow_non_node_childs', True))
    cls = classes.compose(flags, storage, attrs)
    return cls, flags, case['odict']


def setup(case, ctx):
    cls, flags, ordered = composition(case)
    for flag in flags:
        ctx.label(flag)
    keys = case['keys']
    keymap = None
    root = cls(name='root')
    if 'Alias' in flags and case['prefix']:
        from node.behaviors.alias import PrefixAliaser
        root = classes.placed(cls, len(case['ops']),
                              aliaser=PrefixAliaser(PREFIX))
        root.__name__ = 'root'
        keys = gen.distinct([str(gen.dk(key)) for key in keys])
        keymap = PREFIX.__add__
        ctx.label('prefixed')
    kinds = [cls]
    if 'Reference' in flags:
        kinds.extend([classes.shipped('Node'),
                      classes.shipped('AttributedNode')])
    else:
        kinds.extend([classes.shipped('BaseNode'),
                      classes.shipped('Node')])
    raw = case['nonnodes'] or 'NodeChildValidate' not in flags
    values = [None, None, 0, '', 'text', [1], False, dict]

    def factory(i):
        if raw and i % 4 == 1:
            return values[i // 4 % len(values)]
        return kinds[i % len(kinds)]()
    return MapDriver(root, keys, factory, ordered=ordered, ctx=ctx,
                     node_factory=classes.shipped('OrderedNode')
                     if not raw else None, keymap=keymap, reuse=not raw, raw=raw)


def run(case, ctx):
    drive(setup(case, ctx), case, ctx)


PROP = Prop(
    'P02', [Sub('compositions', cases, run, 16000)],
    rule='Random composition of up to 9 of 17 behaviors in canonical order '
         'over dict or odict storage (optionally with a prefix aliaser and '
         'non-node values), random mapping history compared with a dict '
         'after each or only some steps. Non-trivial: at least two successful mutations.',
    assumptions=['behaviors are plumbed in the documented order: validation '
                 'outermost, storage innermost'])
