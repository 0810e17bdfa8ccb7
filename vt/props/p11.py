# -*- coding: utf-8 -*-
import json

from hypothesis import strategies as st

from vt import gen
from vt import sertree
from vt.core import Prop, Sub, check, eq, same, short
from vt.props.p10 import lookups


def compare(node, spec, what):
    same(type(node), sertree.cls_of(spec['kind']), 'class of ' + what)
    eq(node.name, spec['name'], 'name of ' + what)
    same(type(node.name), type(spec['name']), 'type of name of ' + what)
    if spec['kind'] in sertree.ATTRS:
        attrs = sertree.attrs_of(node)
        eq(list(attrs.keys()), list(spec['attrs']), 'attributes of ' + what)
        for key, value in spec['attrs'].items():
            want = sertree.decode_value(value, key)
            check(sertree.exact(attrs[key], want),
                  'attribute %r of %s: got %s, want %s', key, what,
                  short(attrs[key]), short(want))
            if isinstance(value, dict) and 'n' in value:
                same(attrs[key].parent, attrs,
                     'parent of attribute %r of %s' % (key, what))
    keys = [x['name'] for x in spec['children']]
    eq(list(node.keys()), keys, 'child keys of ' + what)
    eq([type(x) for x in node.keys()], [type(x) for x in keys],
       'types of keys of ' + what)
    for key, child in zip(keys, spec['children']):
        same(node[key].parent, node, 'parent of child %r of %s' % (key, what))
        compare(node[key], child, '%s/%s' % (what, key))


def cases(tier):
    return st.fixed_dictionaries({
        'trees': st.lists(sertree.trees(tier), min_size=1, max_size=3),
        'single': st.booleans(),
        'root': gen.one_of(st.none(), st.none(), st.sampled_from(
            sertree.KINDS)),
        'again': st.booleans(),
        # the root has children with the names of the trees already
        'occupied': st.integers(0, 3),
        # lists and dictionaries around each tree, and data beside it
        'wraps': st.lists(st.lists(st.tuples(
            st.sampled_from('ld'), sertree.values(False, False)).map(list),
            max_size=3), min_size=3, max_size=3),
        'plain': st.booleans(),
    })


def wrap(node, wraps):
    for how, beside in wraps:
        beside = sertree.decode_value(beside)
        node = [beside, node] if how == 'l' else {'t': node, 'b': beside}
    return node


def unwrap(data, wraps):
    for how, beside in reversed(wraps):
        beside = sertree.decode_value(beside)
        if how == 'l':
            same(type(data), list, 'type of nested list')
            eq(len(data), 2, 'length of nested list')
            got, data = data
        else:
            same(type(data), dict, 'type of nested dictionary')
            eq(sorted(data), ['b', 't'], 'keys of nested dictionary')
            got, data = data['b'], data['t']
        check(sertree.exact(got, beside), 'data beside tree: got %s, want %s',
              short(got), short(beside))
    return data


def run(case, ctx):
    from node.serializer import deserialize, serialize
    root_kind = case['root']
    single = case['single']
    specs, seen = [], set()
    for spec in case['trees'][:1] if single else case['trees']:
        if root_kind is None or spec['name'] not in seen:
            seen.add(spec['name'])
            specs.append(sertree.plan(spec, root_kind in sertree.REFS))
    nodes = [sertree.make(spec) for spec in specs]
    if case.get('plain', True) or single:
        wraps = [[] for _ in nodes]
    else:
        wraps = case['wraps']
        ctx.label('nested')
    what = nodes[0] if single else [wrap(*x) for x in zip(nodes, wraps)]
    data = serialize(what)
    check(isinstance(data, str), 'serialize() gave %s', short(data))
    for node, spec in zip(nodes, specs):
        compare(node, spec, 'original')
        lookups(node)
    if root_kind is not None:
        root = sertree.cls_of(root_kind)(name='root')
        first = 'first'
        while first in seen:
            first += '_'
        before = sertree.cls_of(root_kind if root_kind != 'MyNode'
                                else 'BaseNode')()
        root[first] = before
        for spec in specs[:case['occupied']]:
            root[spec['name']] = type(before)()
            ctx.label('occupied')
        keys = list(root)
        got = deserialize(data, root=root)
    else:
        root = None
        got = deserialize(data)
    found = [got] if single else got
    if not single:
        same(type(got), list, 'type of deserialized list')
    eq(len(found), len(nodes), 'number of trees')
    wrapped, found = found, [unwrap(*x) for x in zip(found, wraps)]
    for node, old, spec in zip(found, nodes, specs):
        check(node is not old, 'deserialized tree is the original')
        compare(node, spec, 'tree')
        same(node.parent, root, 'parent of tree')
    if root is not None:
        eq(list(root.keys()), keys + [x['name'] for x in specs
                                      if x['name'] not in keys],
           'children of the root')
        same(root[first], before, 'child of the root')
        for node, spec in zip(found, specs):
            same(root[spec['name']], node, 'child of the root')
        lookups(root)
        ctx.label('root')
    else:
        for node in found:
            lookups(node)
    again = serialize(found[0] if single else wrapped)
    eq(json.loads(again), json.loads(data), 'serialized again')
    eq(json.loads(serialize(what)),
       json.loads(data), 'original serialized again')
    n = sum(sertree.count(x) for x in specs)
    ctx.label('single' if single else 'list')
    text = json.dumps(case)
    for mark in ('"unset"', '"n"', '"uuid"', '"ref"', '"d"'):
        if mark in text:
            ctx.label(mark.strip('"'))
    ctx.hit(n >= 2 and any(has_attrs(x) for x in specs))


def has_attrs(spec):
    return bool(spec['attrs']) or any(has_attrs(x) for x in spec['children'])


def probe_markers():
    """Listed inputs: texts and dictionaries that look like type markers."""
    from node.base import AttributedNode
    from node.serializer import deserialize, serialize
    node = AttributedNode(name='n')
    node.attrs['a'] = '<UNSET>'
    return deserialize(serialize(node)).attrs['a'] != '<UNSET>'


PROP = Prop(
    'P11', [Sub('roundtrip', cases, run, 4800)],
    rule='One tree or a list of trees (also within lists and dictionaries '
         'with other data) over 10 node types (shipped and '
         'custom) with text and integer names and nested attribute values '
         '(JSON data, UNSET, UUIDs, classes, functions, nodes at any '
         'depth), '
         'deserialized with or without a root of any type. Non-trivial: at '
         'least two nodes and one attribute.',
    probes={'markers': probe_markers},
    assumptions=['attribute texts are not <UNSET> or start with <UUID>:, '
                 'dictionaries have no key __node__ or __ob__ (known '
                 'finding)',
                 'node classes are importable by module and class name'])
