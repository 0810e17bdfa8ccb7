# -*- coding: utf-8 -*-
"""Strategies for JSON-able case data shared by the properties."""
import json

from hypothesis import strategies as st

NASTY = ['', ' ', '/', 'a/b', '//', '.', '..', '_', '__', '__x', 'x__', '-',
         '0', '1', 'None', 'ä', u'ß日本', u'\U0001f600', '\n', '\t', '\x00',
         'a:b', ':', 'a:b:c', 'a::', 'a b', '"', "'", '{}', '%s', 'keys', 'name', 'parent',
         'get', 'self', 'key', 'default', 'children', 'attrs', '__name__x',
         'x' * 50, u'\ufeffa', u'a\u200b', 'é', u'e\u0301', 'A', 'a']

SIMPLE = list('abcdefgh')


def again(x):
    return x


def one_of(*alternatives):
    """Like ``st.one_of``, which ignores repeated alternatives, while they
    are meant to be more likely.
    """
    if len(alternatives) == 1 and isinstance(alternatives[0], list):
        alternatives = alternatives[0]
    res = []
    for alt in alternatives:
        res.append(alt.map(again) if any(alt is x for x in res) else alt)
    return st.one_of(res)


def is_ns(name):
    return isinstance(name, str) and name.startswith('__') \
        and name.endswith('__')


def names(ns=False, alphabet=None):
    """Text names; by default none is reserved for nodespaces."""
    text = st.text(alphabet=alphabet, max_size=8) if alphabet is not None \
        else st.text(st.characters(exclude_categories=['Cs']), max_size=8)
    res = one_of(st.sampled_from(SIMPLE), st.sampled_from(SIMPLE),
                    st.sampled_from(NASTY), text)
    if not ns:
        res = res.map(lambda s: s + '.' if is_ns(s) else s)
    return res


def idents(min_size=1):
    return one_of(st.sampled_from(SIMPLE), st.from_regex(
        r'\A[a-z][a-z0-9_]{0,6}\Z'))


def anykeys(ns=False):
    """Keys including non-strings, in their JSON form, see ``dk``."""
    return one_of(
        names(ns), names(ns),
        st.integers(-3, 3), st.integers(),
        st.booleans(), st.floats(allow_nan=False, width=32),
        st.lists(st.integers(0, 2), max_size=2).map(lambda x: {'t': x}),
        # not UTF-8, so that unicode aware nodes leave them, see P39
        st.binary(max_size=2).map(lambda x: {'b': 'ff' + x.hex()}))


def dk(key):
    """Decode a key: tuples and bytes have no JSON form of their own."""
    if isinstance(key, dict):
        if 't' in key:
            return tuple(key['t'])
        return bytes.fromhex(key['b'])
    return key


def distinct(keys):
    """Distinct keys by dictionary equality, order kept."""
    res = []
    seen = set()
    for key in keys:
        k = dk(key)
        if k not in seen:
            seen.add(k)
            res.append(key)
    return res


def pool(strategy, min_size=1, max_size=7):
    return st.lists(strategy, min_size=min_size, max_size=max_size) \
        .map(distinct)


idx = st.integers(0, 15)


def json_values(max_leaves=8):
    scalars = one_of(
        st.none(), st.booleans(), st.integers(-2**60, 2**60),
        st.floats(allow_nan=False, allow_infinity=False),
        st.text(st.characters(exclude_categories=['Cs']), max_size=8),
        st.sampled_from(['', 0, 1, 'x']))
    return st.recursive(
        scalars,
        lambda c: one_of(st.lists(c, max_size=4),
                            st.dictionaries(st.text(max_size=4), c,
                                            max_size=3)),
        max_leaves=max_leaves)


def ops(*alternatives, min_size=1, max_size=25):
    """Lists of operations; alternatives are (weight, strategy) or strategy."""
    alts = []
    for alt in alternatives:
        if isinstance(alt, tuple):
            alts.extend([alt[1]] * alt[0])
        else:
            alts.append(alt)
    return st.lists(one_of(alts), min_size=min_size, max_size=max_size)


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)


def pick(seq, i):
    """Element of a sequence by arbitrary index, None if empty."""
    return seq[i % len(seq)] if seq else None


def size(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


def reads():
    """After which operations everything is read, see ``due``. What is wrong
    only as long as nothing is read needs histories with few reads.
    """
    return one_of(st.just([1]), st.just([1]), st.just([0]),
                  st.lists(st.integers(0, 1), min_size=2, max_size=6))


def due(case, i):
    reads = case.get('reads') or [1]
    return reads[i % len(reads)]
