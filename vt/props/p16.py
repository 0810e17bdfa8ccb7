# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import aliasers, gen
from vt.aliasers import NoKey
from vt.core import Prop, Sub, check, eq, fail, raises


def cases(tier):
    return st.fixed_dictionaries({
        'spec': aliasers.specs(),
        'keys': st.lists(gen.names(), min_size=1, max_size=8),
        'change': st.lists(st.tuples(gen.idx, gen.idx, gen.idx).map(list),
                           max_size=4),
    })


def expect(func, ref, spec, key, what):
    """Result of both the aliaser and the reference, None if no key."""
    try:
        want = ref(spec, key)
    except NoKey:
        raises(KeyError, func, key)
        return None
    try:
        got = func(key)
    except KeyError as e:
        fail('%s(%r) of %r raised %r, want %r', what, key, spec, e, want)
    eq(got, want, '%s(%r) of %r' % (what, key, spec))
    return got


def compare(aliaser, spec, keys, ctx):
    names, reals = aliasers.keys_of(spec)
    keys = list(keys) + names + reals
    # keys that fit, whatever the random ones are
    for key in list(keys):
        try:
            keys.append(aliasers.alias(spec, key))
        except NoKey:
            pass
    good = 0
    laws = aliasers.invertible(spec)
    for key in keys:
        before = repr(spec)
        res = expect(aliaser.alias, aliasers.alias, spec, key, 'alias')
        if res is not None:
            good += 1
            if laws:
                eq(aliaser.unalias(res), key,
                   'unalias(alias(%r)) of %r' % (key, spec))
        else:
            ctx.label('no-alias')
        res = expect(aliaser.unalias, aliasers.unalias, spec, key, 'unalias')
        if res is not None:
            if laws:
                eq(aliaser.alias(res), key,
                   'alias(unalias(%r)) of %r' % (key, spec))
        else:
            ctx.label('no-unalias')
        check(repr(spec) == before, 'spec changed')
    ctx.label(spec[0], 'invertible' if laws else 'not-invertible')
    return good


def run(case, ctx):
    from node.interfaces import IAliaser
    spec = case['spec']
    aliaser = aliasers.build(spec)
    check(IAliaser.providedBy(aliaser), 'no IAliaser')
    good = compare(aliaser, spec, case['keys'], ctx)
    ctx.hit(good >= 2 and spec[0] != 'dict' or len(spec[1] or ()) > 1)
    if spec[0] == 'dict':
        # it is its own dictionary
        eq(list(aliaser.items()), aliasers.pairs(spec), 'items')
        for what, i, j in case['change']:
            pairs = aliasers.pairs(spec)
            name = gen.pick(case['keys'], i)
            if what % 3 == 0 and pairs:
                name = pairs[i % len(pairs)][0]
                del aliaser[name]
                pairs = [x for x in pairs if x[0] != name]
            else:
                real = gen.pick(case['keys'], j)
                aliaser[name] = real
                pairs = pairs + [(name, real)]
            spec = ['dict', [list(x) for x in pairs], spec[2]]
            compare(aliaser, spec, case['keys'], ctx)
            ctx.label('changed')


PROP = Prop(
    'P16', [Sub('aliasers', cases, run, 20000)],
    rule='Prefix, suffix, combined and dictionary aliasers (strict or not, '
         'injective or not, changed later) with missing, empty and arbitrary '
         'affixes and chains of them at any depth, applied to random keys, '
         'mentioned keys and aliases of both; results compared with an '
         'independent reference, both inversion laws checked for aliasers '
         'that are invertible by their data. Non-trivial: two keys could be '
         'aliased (or two dictionary entries).',
    assumptions=['a dictionary aliaser with two aliases of one key, or not '
                 'strict, is no bijection: it is compared with the '
                 'reference only', 'keys are texts'])
