# -*- coding: utf-8 -*-
from collections import OrderedDict

from hypothesis import strategies as st

from node.base import BaseNode
from node.base import OrderedNode
from node import utils

from vt import gen
from vt.core import Prop, Sub, check, eq, fail, raises, same

ENCODINGS = ['utf-8', 'utf-8', 'latin-1', 'ascii', 'utf-16', 'cp1252',
             'utf-32', 'shift_jis']


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MyText(str):
    pass


class MyBytes(bytes):
    pass


class Other(object):
    pass


OTHERS = [None, 0, 1, True, 1.5, Other(), Other, {1, 2}, frozenset('a'),
          bytearray(b'ab'), range(3), Ellipsis, float('inf'), len]


# specs: [kind, ...]

def leaves(text, raw):
    res = [text.map(lambda x: ['text', x]), text.map(lambda x: ['mytext', x]),
           text.map(lambda x: ['text', x]),
           st.integers(0, len(OTHERS) - 1).map(lambda x: ['other', x])]
    if raw:
        res.extend([text.map(lambda x: ['encoded', x]),
                    text.map(lambda x: ['encoded', x]),
                    st.binary(max_size=4).map(lambda x: ['bytes', x.hex()]),
                    st.sampled_from(['ff', '81', 'c3', 'd800', '']).map(
                        lambda x: ['mybytes', x])])
    return gen.one_of(res)


def keys(text, raw):
    scalar = leaves(text, raw).filter(
        lambda x: x[0] != 'other' or x[1] in (0, 1, 2, 4, 5, 6, 8))
    return gen.one_of(scalar, scalar, st.lists(scalar, max_size=2).map(
        lambda x: ['tuple'] + x))


def specs(text, raw):
    key = keys(text, raw)

    def extend(inner):
        pairs = st.lists(st.tuples(key, inner).map(list), max_size=3)
        nkey = text.filter(lambda x: not gen.is_ns(x)).map(
            lambda x: ['text', x])
        if raw:
            nkey = gen.one_of(nkey, key)
        nodes = st.lists(st.tuples(nkey, inner).map(list), max_size=3)
        some = st.lists(inner, max_size=3)
        return gen.one_of(
            some.map(lambda x: ['list'] + x),
            some.map(lambda x: ['tuple'] + x),
            some.map(lambda x: ['mylist'] + x),
            some.map(lambda x: ['mytuple'] + x),
            pairs.map(lambda x: ['dict'] + x),
            pairs.map(lambda x: ['odict'] + x),
            pairs.map(lambda x: ['mydict'] + x),
            nodes.map(lambda x: ['node'] + x),
            nodes.map(lambda x: ['onode'] + x))
    return st.recursive(leaves(text, raw), extend, max_leaves=12)


SEQS = dict(list=list, tuple=tuple, mylist=MyList, mytuple=MyTuple)
DICTS = dict(dict=dict, odict=OrderedDict, mydict=MyDict)
NODES = dict(node=BaseNode, onode=OrderedNode)


def encodable(text, encoding):
    try:
        return text.encode(encoding)
    except UnicodeEncodeError:
        return None


def fix(text, encoding):
    """Texts are limited to what the encoding can represent, back and forth.
    """
    res = ''.join(x for x in text if encodable(x, encoding) is not None)
    try:
        if res.encode(encoding).decode(encoding) == res:
            return res
    except UnicodeDecodeError:
        pass
    return res.encode('ascii', 'replace').decode('ascii')


def build(spec, encoding):
    kind = spec[0]
    if kind == 'text':
        return fix(spec[1], encoding)
    if kind == 'mytext':
        return MyText(fix(spec[1], encoding))
    if kind == 'encoded':
        return fix(spec[1], encoding).encode(encoding)
    if kind == 'bytes':
        return bytes.fromhex(spec[1])
    if kind == 'mybytes':
        return MyBytes(bytes.fromhex(spec[1]))
    if kind == 'other':
        return OTHERS[spec[1]]
    if kind in SEQS:
        return SEQS[kind]([build(x, encoding) for x in spec[1:]])
    if kind in DICTS:
        return DICTS[kind]([(build(k, encoding), build(v, encoding))
                            for k, v in spec[1:]])
    node = NODES[kind]()
    node.allow_non_node_childs = True
    for k, v in spec[1:]:
        node[build(k, encoding)] = build(v, encoding)
    return node


class Invalid(Exception):
    pass


class Collision(Exception):
    pass


def reference(value, encoding, soft, encode):
    """What the codec has to return, and whether it is invalid."""
    def rec(x):
        return reference(x, encoding, soft, encode)
    if isinstance(value, BaseNode) or isinstance(value, OrderedNode) \
            or isinstance(value, dict):
        res = {}
        for k in value.keys():
            key = rec(k)
            if key in res:
                raise Collision()
            res[key] = rec(value[k])
        return res
    if isinstance(value, (list, tuple)):
        return type(value)([rec(x) for x in value])
    if isinstance(value, bytes):
        try:
            text = value.decode(encoding)
        except UnicodeDecodeError:
            if soft:
                return value
            raise Invalid()
        return text.encode(encoding) if encode else text
    if isinstance(value, str) and encode:
        return value.encode(encoding)
    return value


def identical(got, want, source, where='result'):
    """Deep comparison by type, passing objects by identity."""
    check(type(got) is type(want) or any(
        isinstance(want, x) and isinstance(got, x) for x in (str, bytes)),
          '%s is a %s, want %s', where, type(got), type(want))
    if isinstance(want, dict):
        eq(len(got), len(want), 'length of ' + where)
        eq(list(got), list(want), 'keys of ' + where)
        for (a, x), (b, y) in zip(got.items(), want.items()):
            identical(a, b, source, where + ' key')
            identical(x, y, source, where + '[%r]' % (a,))
    elif isinstance(want, (list, tuple)):
        eq(len(got), len(want), 'length of ' + where)
        for i, (x, y) in enumerate(zip(got, want)):
            identical(x, y, source, where + '[%d]' % i)
    elif isinstance(want, (str, bytes)):
        eq(got, want, where)
    else:
        same(got, want, where)


def containers(value, res=None):
    res = [] if res is None else res
    if isinstance(value, (list, dict)):
        res.append(value)
    if isinstance(value, (list, tuple)):
        for x in value:
            containers(x, res)
    elif isinstance(value, (dict, BaseNode, OrderedNode)):
        for x in value.values():
            containers(x, res)
    return res


def snapshot(value):
    """Structure with the identity of each object."""
    if isinstance(value, (list, tuple)):
        return [id(value), type(value)] + [snapshot(x) for x in value]
    if isinstance(value, (dict, BaseNode, OrderedNode)):
        return [id(value), type(value)] + [
            (snapshot(k), snapshot(v)) for k, v in value.items()]
    return [id(value), repr(value)]


def call(func, value, encoding, soft, encode):
    before = snapshot(value)
    try:
        want = reference(value, encoding, soft, encode)
    except Collision:
        return None
    except (Invalid, UnicodeEncodeError) as e:
        if isinstance(e, UnicodeEncodeError):
            # a decoded text the encoding cannot represent, not specified
            return None
        raises(UnicodeDecodeError, func, value)
        eq(snapshot(value), before, 'input')
        return None
    got = func(value)
    identical(got, want, value)
    eq(snapshot(value), before, 'input')
    mine = set(id(x) for x in containers(value))
    check(not any(id(x) in mine for x in containers(got)),
          'result shares a container with the input')
    return (got,)


def cases(tier):
    text = gen.one_of(st.sampled_from(gen.NASTY), gen.names(ns=True),
                     st.text(st.characters(codec='latin-1'), max_size=4))
    return gen.one_of(st.booleans(), st.just(True)).flatmap(
        lambda raw: st.fixed_dictionaries(dict(
            encoding=st.sampled_from(ENCODINGS), soft=st.booleans(),
            raw=st.just(raw), spec=specs(text, raw),
            default=st.sampled_from([0, 0, 1, 2]))))


def run(case, ctx):
    encoding, soft = case['encoding'], case['soft']
    if case['default'] == 1:
        encoding, soft = 'utf-8', True
        encode, decode = utils.encode, utils.decode
    else:
        codec = utils.StrCodec(encoding, soft) if case['default'] == 0 \
            else utils.StrCodec(encoding=encoding, soft=soft)
        encode, decode = codec.encode, codec.decode
    value = build(case['spec'], encoding)
    res = call(decode, value, encoding, soft, False)
    ctx.label('decoded' if res else 'undecodable')
    res = call(encode, value, encoding, soft, True)
    if res is not None:
        again = call(decode, res[0], encoding, soft, False)
        if not case['raw'] and again is not None:
            # nodes became dictionaries
            try:
                plain = reference(value, encoding, soft, False)
            except Collision:
                return
            identical(again[0], plain, value, 'decode(encode())')
            ctx.label('roundtrip')
    ctx.label(encoding)
    ctx.hit(len(str(case['spec'])) > 40)


PROP = Prop(
    'P29', [Sub('structures', cases, run, 6000)],
    rule='Nested structures of texts, encoded and invalid byte strings, '
         'lists, tuples, dictionaries (and subclasses), nodes and other '
         'objects, in eight encodings, soft or not: decode and encode are '
         'compared with a reference by type and value, other objects by '
         'identity; the input must be untouched and not shared; structures '
         'of texts must survive the round trip. Non-trivial: nested or long '
         'structures.',
    assumptions=['tuple subclasses take a sequence (no named tuples)',
                 'structures whose keys become equal are not judged',
                 'texts the encoding cannot represent are not judged'])
