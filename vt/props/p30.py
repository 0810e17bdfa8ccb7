# -*- coding: utf-8 -*-
from collections import OrderedDict

from hypothesis import strategies as st

from node.utils import ReverseMapping
from odict import odict

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same

KINDS = ['dict', 'odict', 'OrderedDict', 'OrderedNode', 'BaseNode', 'attrs']


class Equal(object):
    """Equal, not identical, not hashable."""
    __hash__ = None

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Equal) and self.x == other.x

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'Equal(%r)' % (self.x,)


def values():
    return [None, 0, False, '', 1, True, 1.0, 'a', [], [1], {}, {'a': 1},
            (), Equal(1), Equal(1), Equal(2), frozenset(), 'b', b'',
            float('nan')]


def cases(tier):
    v = st.integers(0, 19)
    k = gen.idx
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS),
        'keys': gen.pool(gen.anykeys(), min_size=2),
        'ops': gen.ops((6, gen.op('set', k, v)), (2, gen.op('del', k)),
                       (1, gen.op('clear')),
                       (1, gen.op('update', st.lists(
                           st.tuples(k, v).map(list), max_size=4))),
                       min_size=3, max_size=gen.size(tier, 12, 40)),
    })


def make(kind):
    if kind in ('dict', 'odict', 'OrderedDict'):
        return dict(dict=dict, odict=odict, OrderedDict=OrderedDict)[kind]()
    if kind == 'attrs':
        return classes.shipped('AttributedNode')().attrs
    node = classes.shipped(kind)()
    node.allow_non_node_childs = True
    return node


def run(case, ctx):
    mapping = make(case['kind'])
    pool = values()
    extra = [object(), 'missing', [2], Equal(3), 7]
    model = {}
    reverse = ReverseMapping(mapping)
    keys = [gen.dk(key) for key in case['keys']]
    if case['kind'] == 'attrs' or 'Node' in case['kind']:
        keys = [key for key in keys if not gen.is_ns(key)]

    def compare():
        eq(len(reverse), len(model), 'len()')
        got = list(reverse)
        # the order is the one of the mapping
        order = list(mapping.keys())
        eq(sorted(map(repr, order)), sorted(map(repr, model)), 'keys')
        for name, got, want in (
                ('iter()', list(reverse), [model[x] for x in order]),
                ('keys()', list(reverse.keys()), [model[x] for x in order]),
                ('values()', list(reverse.values()), order)):
            eq(len(got), len(want), 'number of ' + name)
            for x, y in zip(got, want):
                if name == 'values()':
                    eq((type(x), x), (type(y), y), name)
                else:
                    same(x, y, name)
        got = list(reverse.items())
        eq(len(got), len(order), 'number of items()')
        for (v, k), key in zip(got, order):
            eq((type(k), k), (type(key), key), 'key in items()')
            same(v, model[key], 'value in items()')
        for value in pool + extra:
            if value != value:
                # whether NaN is held is a matter of taste
                continue
            first = [k for k in order if model[k] == value]
            marker = object()
            check((value in reverse) is bool(first), '%r in reverse', value)
            if first:
                for got in (reverse[value], reverse.get(value),
                            reverse.get(value, marker)):
                    eq((type(got), got), (type(first[0]), first[0]),
                       'key of %r' % (value,))
                if len(first) > 1:
                    ctx.label('several')
                    ctx.hit()
            else:
                e = raises(KeyError, reverse.__getitem__, value)
                check(len(e.args) == 1 and e.args[0] is value,
                      'KeyError of %r', value)
                same(reverse.get(value), None, 'get()')
                same(reverse.get(value, marker), marker, 'get()')

    compare()
    for op in case['ops']:
        if op[0] == 'set':
            key, value = gen.pick(keys, op[1]), pool[op[2]]
            mapping[key] = value
            model[key] = value
        elif op[0] == 'del':
            key = gen.pick(list(model), op[1])
            if model:
                del mapping[key]
                del model[key]
        elif op[0] == 'clear':
            mapping.clear()
            model.clear()
        else:
            for k, v in op[1]:
                mapping.update([(gen.pick(keys, k), pool[v])])
                model[gen.pick(keys, k)] = pool[v]
        compare()
        ctx.label(op[0])


PROP = Prop(
    'P30', [Sub('histories', cases, run, 30000)],
    rule='ReverseMapping of dictionaries, odicts, nodes and node attributes '
         'with equal, identical, false and unhashable values, during a '
         'history of changes of the mapping; every access is compared with '
         'the mapping exchanged after each step. Non-trivial: a value was '
         'held by several keys.')
