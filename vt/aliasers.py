# -*- coding: utf-8 -*-
"""Generated aliasers with an independent reference.

Specs: ['prefix', p], ['suffix', s], ['ps', p, s], ['dict', pairs, strict],
['chain', [specs]]; p and s may be None.
"""
from hypothesis import strategies as st

from vt import gen

AFFIX = gen.one_of(st.none(), st.just(''), st.sampled_from(
    ['p', 'pp', '-', 'a', 'ab', 'ä', ' ', '/']), gen.names())


def specs(deep=True, keys=None):
    keys = keys if keys is not None else gen.names()
    pairs = st.lists(st.tuples(keys, keys).map(list), min_size=0, max_size=5)
    simple = gen.one_of(
        st.tuples(st.just('prefix'), AFFIX).map(list),
        st.tuples(st.just('suffix'), AFFIX).map(list),
        st.tuples(st.just('ps'), AFFIX, AFFIX).map(list),
        st.tuples(st.just('dict'), pairs, st.booleans()).map(list),
        st.tuples(st.just('dict'), pairs, st.just(True)).map(list))
    if not deep:
        return simple
    return gen.one_of(simple, st.recursive(simple, lambda c: st.tuples(
        st.just('chain'), st.lists(c, max_size=3)).map(list), max_leaves=6))


def build(spec):
    from node.behaviors import alias
    kind = spec[0]
    if kind == 'prefix':
        return alias.PrefixAliaser(spec[1])
    if kind == 'suffix':
        return alias.SuffixAliaser(spec[1])
    if kind == 'ps':
        return alias.PrefixSuffixAliaser(spec[1], spec[2])
    if kind == 'dict':
        return alias.DictAliaser([tuple(x) for x in spec[1]], strict=spec[2])
    return alias.AliaserChain([build(x) for x in spec[1]])


class NoKey(Exception):
    pass


def alias(spec, key):
    kind = spec[0]
    if kind == 'prefix':
        return '%s%s' % (spec[1] or '', key)
    if kind == 'suffix':
        return '%s%s' % (key, spec[1] or '')
    if kind == 'ps':
        return '%s%s%s' % (spec[1] or '', key, spec[2] or '')
    if kind == 'dict':
        for name, real in pairs(spec):
            if real == key:
                return name
        if spec[2]:
            raise NoKey(key)
        return key
    for sub in spec[1]:
        key = alias(sub, key)
    return key


def pairs(spec):
    """Pairs of a dict aliaser, last one wins at the place of the first."""
    res = {}
    for name, real in spec[1]:
        res[name] = real
    return list(res.items())


def unalias(spec, key):
    kind = spec[0]
    if kind in ('prefix', 'suffix', 'ps'):
        p = (spec[1] or '') if kind != 'suffix' else ''
        s = (spec[1] or '') if kind == 'suffix' else ''
        if kind == 'ps':
            s = spec[2] or ''
        # the suffix is taken off first, then the prefix
        if s and key[len(key) - len(s):] != s or len(key) < len(s):
            raise NoKey(key)
        key = key[:len(key) - len(s)]
        if key[:len(p)] != p:
            raise NoKey(key)
        return key[len(p):]
    if kind == 'dict':
        for name, real in pairs(spec):
            if name == key:
                return real
        if spec[2]:
            raise NoKey(key)
        return key
    for sub in reversed(spec[1]):
        key = unalias(sub, key)
    return key


def invertible(spec):
    """Whether both laws hold for all keys that can be translated."""
    if spec[0] == 'dict':
        found = pairs(spec)
        return spec[2] and len(set(x[1] for x in found)) == len(found)
    if spec[0] == 'chain':
        return all(invertible(x) for x in spec[1])
    return True


def lawful(spec, key):
    """Alias of a storage key which comes back to it, else NoKey."""
    res = alias(spec, key)
    if unalias(spec, res) != key:
        raise NoKey(key)
    return res


def has_dict(spec):
    return spec[0] == 'dict' or spec[0] == 'chain' \
        and any(has_dict(x) for x in spec[1])


def keys_of(spec):
    """Keys a spec mentions: (aliases, real keys)."""
    if spec[0] == 'dict':
        return [x[0] for x in spec[1]], [x[1] for x in spec[1]]
    if spec[0] == 'chain':
        names, reals = [], []
        for sub in spec[1]:
            a, b = keys_of(sub)
            names.extend(a)
            reals.extend(b)
        return names, reals
    return [], []
