# -*- coding: utf-8 -*-
"""Generated trees for the serializer properties."""
import functools
import uuid

from hypothesis import strategies as st

from vt import classes, gen

OWN = ['CustomOrdered', 'CustomBase', 'CustomAttributed', 'AttrAccess',
       'Minimal', 'Outer.NestedNode', 'Outer.Inner.NestedAttributed',
       'Prefilled']
KINDS = classes.TREE_TYPES + OWN
ATTRS = ['AttributedNode', 'Node', 'CustomAttributed', 'AttrAccess',
         'Minimal', 'Outer.Inner.NestedAttributed', 'Prefilled']
REFS = ['Node', 'AttributedNode', 'CustomAttributed', 'AttrAccess',
        'Outer.Inner.NestedAttributed', 'Prefilled']
REFERABLE = ['dict', 'Inner', 'Most', 'function', 'other', 'method', 'static',
             'BaseNode', 'UUID']


def cls_of(kind):
    if kind in OWN:
        from vt import nodes
        return functools.reduce(getattr, kind.split('.'), nodes)
    return classes.shipped(kind)


def referable(name):
    from vt import nodes
    from node.base import BaseNode
    inner = nodes.Outer.Inner
    return {'dict': (dict, 'builtins.dict'),
            'Inner': (inner, 'vt.nodes.Outer.Inner'),
            'Most': (inner.Most, 'vt.nodes.Outer.Inner.Most'),
            'function': (nodes.function, 'vt.nodes.function'),
            'other': (nodes.other_function, 'vt.nodes.other_function'),
            'method': (inner.method, 'vt.nodes.Outer.Inner.method'),
            'static': (nodes.Outer.static, 'vt.nodes.Outer.static'),
            'BaseNode': (BaseNode, 'node.base.BaseNode'),
            'UUID': (uuid.UUID, 'uuid.UUID')}[name]


TEXT = st.text(st.characters(exclude_categories=['Cs']), max_size=8)


def values(markers, nodes=True):
    """JSON form of attribute values: {'s': ...} special, {'d': [...]} dict,
    {'n': ...} node.

    :param markers: whether texts looking like type markers are included.
    :param nodes: whether nodes are included.
    """
    text = gen.one_of(TEXT, st.sampled_from(gen.NASTY))
    if markers:
        text = gen.one_of(text, st.sampled_from(
            ['<UNSET>', '<UUID>:', '<UUID>:x', '__node__', '__ob__']))
        keys = text
    else:
        text = text.filter(lambda s: s != '<UNSET>'
                           and not s.startswith('<UUID>:'))
        keys = text.filter(lambda s: s not in ('__node__', '__ob__'))
    scalars = gen.one_of(
        st.none(), st.booleans(), st.integers(), st.integers(-3, 3),
        st.floats(allow_nan=False, allow_infinity=False), text,
        st.just({'s': 'unset'}),
        st.integers(0, 2**128 - 1).map(lambda i: {'s': 'uuid', 'v': str(i)}),
        st.sampled_from(REFERABLE).map(lambda n: {'s': 'ref', 'v': n}))
    if nodes:
        inner = st.lists(st.tuples(gen.names(), values(markers, False)).map(
            list), max_size=2)
        leaf = st.fixed_dictionaries({
            'kind': st.sampled_from(KINDS), 'name': names(), 'attrs': inner})
        scalars = gen.one_of(scalars, scalars, scalars, scalars, scalars,
            st.tuples(leaf, st.lists(leaf, max_size=2)).map(
                lambda x: {'n': dict(x[0], children=x[1])}))
    return st.recursive(scalars, lambda c: gen.one_of(
        st.lists(c, max_size=4),
        st.lists(st.tuples(keys, c).map(list), max_size=3).map(
            lambda x: {'d': x})), max_leaves=6)


def decode_value(value, name=None):
    if isinstance(value, list):
        return [decode_value(x) for x in value]
    if isinstance(value, dict):
        if 'd' in value:
            return dict((k, decode_value(v)) for k, v in value['d'])
        if 'n' in value:
            spec = plan(value['n'])
            return make(spec if name is None else dict(spec, name=name))
        if value['s'] == 'unset':
            from node.utils import UNSET
            return UNSET
        if value['s'] == 'uuid':
            return uuid.UUID(int=int(value['v']))
        return referable(value['v'])[0]
    return value


def plain_value(value, include_class, name=None):
    """What simple mode makes of it."""
    if isinstance(value, list):
        return [plain_value(x, include_class) for x in value]
    if isinstance(value, dict):
        if 'd' in value:
            return dict((k, plain_value(v, include_class))
                        for k, v in value['d'])
        if 'n' in value:
            spec = plan(value['n'])
            return project(spec if name is None else dict(spec, name=name),
                           include_class)
        if value['s'] == 'unset':
            return '<UNSET>'
        if value['s'] == 'uuid':
            return '<UUID>:' + str(uuid.UUID(int=int(value['v'])))
        return referable(value['v'])[1]
    return value


def project(spec, include_class):
    """What simple mode makes of a tree."""
    cls = cls_of(spec['kind'])
    res = {'name': spec['name']}
    if include_class:
        res['class'] = '%s.%s' % (cls.__module__, cls.__qualname__)
    if spec['children']:
        res['children'] = [project(x, include_class)
                           for x in spec['children']]
    if spec['kind'] in ATTRS:
        res['attrs'] = dict((k, plain_value(v, include_class, k))
                            for k, v in spec['attrs'].items())
    return res


def names():
    return gen.one_of(gen.names(), gen.names(), st.integers(-5, 5),
                     st.sampled_from(['<UNSET>', '<UUID>:', 'children',
                                      'class', 'name', 'attrs', '__node__x']))


def trees(tier, markers=False):
    attr = st.tuples(gen.names(), values(markers)).map(list)
    attrs = st.lists(attr, max_size=3)
    kinds = st.sampled_from(KINDS)
    leaf = st.fixed_dictionaries({'kind': kinds, 'name': names(),
                                  'attrs': attrs})
    return st.recursive(leaf, lambda c: st.fixed_dictionaries({
        'kind': kinds, 'name': names(), 'attrs': attrs,
        'children': st.lists(c, min_size=1, max_size=4)}),
        max_leaves=gen.size(tier, 8, 20))


def plan(spec, inref=False):
    """Make the spec consistent: distinct names, reference trees uniform."""
    kind = spec['kind']
    if inref and kind not in REFS:
        kind = REFS[len(kind) % len(REFS)]
    res = {'kind': kind, 'name': spec['name'], 'attrs': {}, 'children': []}
    if kind in ATTRS:
        for name, value in spec['attrs']:
            res['attrs'][name] = value
    seen = set()
    children = list(spec.get('children', []))
    if kind == 'Prefilled':
        # always has what the constructor creates
        res['attrs'] = dict({'a': 1}, **res['attrs'])
        first = []
        for name in 'ab':
            mine = [x for x in children if x['name'] == name]
            first.append(mine[0] if mine else {
                'kind': 'AttributedNode', 'name': name, 'attrs': []})
        children = first + children
    for child in children:
        if child['name'] not in seen:
            seen.add(child['name'])
            # every referencing node accepts referencing nodes only
            res['children'].append(plan(child, kind in REFS
                                        or kind == 'MyNode' and inref))
    return res


def make(spec):
    node = cls_of(spec['kind'])(name=spec['name'])
    for name, value in spec['attrs'].items():
        attrs_of(node)[name] = decode_value(value)
    for child in spec['children']:
        node.detach(child['name']) if child['name'] in node else None
        node[child['name']] = make(child)
    return node


def attrs_of(node):
    from node.utils import AttributeAccess
    attrs = node.attrs
    if isinstance(attrs, AttributeAccess):
        attrs = node.nodespaces['__attrs__']
    return attrs


def count(spec):
    return 1 + sum(count(x) for x in spec['children'])


def exact(a, b):
    """Equality including types and identity of what has an identity."""
    from node.interfaces import INode
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(exact(a[k], b[k]) for k in a)
    if INode.providedBy(a):
        if not exact(a.name, b.name) or not exact(list(a), list(b)):
            return False
        if not all(exact(a[k], b[k]) and a[k].parent is a for k in b):
            return False
        if hasattr(b, 'attrs'):
            a, b = attrs_of(a), attrs_of(b)
            return set(a) == set(b) and all(exact(a[k], b[k]) for k in b)
        return True
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a is b or a == b
