# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same

REAL = ['keys', 'name', 'parent', 'path', 'root', 'get', 'values', 'items',
        'detach', 'clear', 'update', 'pop', 'storage', 'attrs', 'uuid',
        'index', 'node', 'nodespaces', 'aliaser', 'mine', 'method', 'prop']


def wrapper_names():
    from node.utils import AttributeAccess
    reserved = set(dir(AttributeAccess)) | set(['context'])
    return gen.names().filter(lambda s: s not in reserved)


def ops(tier, real=False):
    n = gen.size(tier, 20, 50)
    k = gen.idx
    return gen.ops(
        (4, gen.op('setattr', k, k)),
        (2, gen.op('setitem', k, k)),
        (2, gen.op('ctxset', k, k)),
        (2, gen.op('delitem', k)),
        (2, gen.op('ctxdel', k)),
        (1, gen.op('clear')),
        (1, gen.op('wrapper')),
        *([(2, gen.op('instance', k, k))] if real else []),
        min_size=2, max_size=n)


CONTEXTS = ['dict', 'odict', 'AttributeAccess', 'asattr', 'direct', 'attrs',
            'attrs', 'BaseNode', 'DictAliaser']


def cases(tier):
    return st.fixed_dictionaries({
        'context': st.sampled_from(CONTEXTS),
        'type': st.sampled_from(classes.TREE_TYPES),
        'keys': gen.pool(wrapper_names()),
        'ops': ops(tier, True)})


VALUES = [None, 0, '', 'text', [1], False, dict, {'a': 1}]
MISSING = object()


def run(case, ctx):
    from node.utils import AttributeAccess
    from odict import odict
    what = case['context']
    nodes = False
    if what in ('dict', 'odict'):
        context = dict() if what == 'dict' else odict()

        def wrap():
            return AttributeAccess(context)
    elif what == 'DictAliaser':
        from node.behaviors.alias import DictAliaser
        context = DictAliaser()

        def wrap():
            return AttributeAccess(context)
    elif what == 'AttributeAccess':
        # a wrapper around a wrapper
        context = dict()

        def wrap():
            return AttributeAccess(AttributeAccess(context))
    elif what == 'attrs':
        owner = type('Owner', (classes.shipped('AttributedNode'),),
                     {'attribute_access_for_attrs': True})()

        def wrap():
            return owner.attrs
        wrap()
        context = owner.nodespaces['__attrs__']
    else:
        nodes = True
        context = classes.shipped(case['type'])()
        direct = what == 'direct'
        if case['type'] == 'MyNode':
            direct = True

        def wrap():
            return AttributeAccess(context) if direct \
                else context.as_attribute_access()
    child = classes.shipped('Node' if case['type'] in classes.REF_TYPES
                            else 'BaseNode')
    node_child = child
    access = wrap()
    model = {}
    keys = case['keys']

    def value(i):
        return node_child() if nodes else VALUES[i % len(VALUES)]
    ctx.label(what)
    done = set()
    instance = {}
    for op in case['ops']:
        name = op[0]
        key = keys[op[1] % len(keys)] if len(op) > 1 else None
        if name in ('setattr', 'setitem', 'ctxset'):
            val = value(op[2])
            if name == 'setattr':
                setattr(access, key, val)
            elif name == 'setitem':
                access[key] = val
            else:
                context[key] = val
            model[key] = val
            done.add(name)
        elif name == 'delitem':
            if key in model:
                del access[key]
                del model[key]
                done.add(name)
            else:
                raises(KeyError, access.__delitem__, key)
        elif name == 'ctxdel':
            if key in model:
                del context[key]
                del model[key]
        elif name == 'clear':
            context.clear()
            model.clear()
        elif name == 'instance':
            # an attribute of the wrapped object which is no item
            if hasattr(context, '__dict__') and key.isidentifier() \
                    and not hasattr(type(context), key) \
                    and (key in instance or key not in vars(context)):
                if op[2] % 3:
                    instance[key] = VALUES[op[2] % len(VALUES)]
                    object.__setattr__(context, key, instance[key])
                    ctx.label('instance attribute')
                elif key in instance:
                    object.__delattr__(context, key)
                    del instance[key]
        elif name == 'wrapper':
            access = wrap()
        for key in keys:
            if key in model:
                same(getattr(access, key), model[key], 'attribute %r' % key)
                same(access[key], model[key], 'item %r of wrapper' % key)
                same(context[key], model[key], 'item %r of wrapped' % key)
                same(hasattr(access, key), True, 'hasattr %r' % key)
            else:
                e = raises(AttributeError, getattr, access, key)
                eq(e.args, (key,), 'AttributeError')
                same(hasattr(access, key), False, 'hasattr %r' % key)
                d = object()
                same(getattr(access, key, d), d, 'getattr with default')
                raises(KeyError, access.__getitem__, key)
                check(key not in list(context), '%r in wrapped', key)
        for key, val in instance.items():
            same(vars(context).get(key, MISSING), val,
                 'instance attribute %r of wrapped' % key)
        eq(set(context.keys()), set(model), 'keys of wrapped')
        check(not set(vars(access)) - set(['context']),
              'wrapper stores %r itself', sorted(vars(access)))
    ctx.hit('setattr' in done and len(done) > 1)


# ---------------------------------------------------------------------------
# GetattrChildren

def getattr_cases(tier):
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(
            ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
             'Adopt', 'Attributes', 'Cache', 'Reference', 'Order', 'Alias',
             'AsAttrAccess', 'UnicodeAware', 'Fallback', 'Events',
             'VolatileStorageInvalidate']), max_size=5, unique=True),
        'odict': st.booleans(),
        'keys': gen.pool(gen.one_of(gen.names(), st.sampled_from(REAL)),
                         min_size=2),
        'ops': ops(tier, True)})


def real_attribute(node, name):
    try:
        return object.__getattribute__(node, name)
    except AttributeError:
        return MISSING


def run_getattr(case, ctx):
    flags = [x for x in case['flags'] if case['odict'] or x != 'Order']

    def method(self):
        return 5
    base = classes.compose(flags + ['GetattrChildren'],
                           'OdictStorage' if case['odict'] else 'DictStorage')
    cls = type('Sub', (base,), {'mine': None, 'method': method,
                                'prop': property(lambda self: 'prop')})
    node = cls(name='node')
    child = classes.shipped('Node' if 'Reference' in flags else 'BaseNode')
    keys = case['keys']
    model = {}
    instance = {}
    hits = set()
    fixed = dict((k, real_attribute(node, k)) for k in keys)
    for op in case['ops']:
        name = op[0]
        key = keys[op[1] % len(keys)] if len(op) > 1 else None
        if name in ('setattr', 'setitem', 'ctxset'):
            model[key] = node[key] = child()
        elif name in ('delitem', 'ctxdel'):
            if key in model:
                del node[key]
                del model[key]
        elif name == 'clear':
            node.clear()
            model.clear()
        elif name == 'instance':
            if fixed[key] is MISSING and key.isidentifier():
                if op[2] % 3:
                    # an attribute of the node, not a child
                    value = VALUES[op[2] % len(VALUES)]
                    setattr(node, key, value)
                    instance[key] = value
                elif key in instance:
                    delattr(node, key)
                    del instance[key]
        for key in keys:
            if key in instance:
                same(getattr(node, key), instance[key],
                     'instance attribute %r' % key)
                hits.add('instance' if key in model else None)
            elif fixed[key] is not MISSING:
                got = getattr(node, key)
                check(type(got) is type(fixed[key])
                      and got is not model.get(key, MISSING),
                      'attribute %r is shadowed', key)
                hits.add('real' if key in model else None)
            elif key in model:
                same(getattr(node, key), model[key], 'attribute %r' % key)
                same(hasattr(node, key), True, 'hasattr %r' % key)
                hits.add('child')
            elif real_attribute(node, key) is MISSING:
                raises(AttributeError, getattr, node, key)
                same(hasattr(node, key), False, 'hasattr %r' % key)
                d = object()
                same(getattr(node, key, d), d, 'getattr with default')
                hits.add('missing')
            if key in model:
                same(node[key], model[key], 'item %r' % key)
        eq(set(node.keys()), set(model), 'children')
    ctx.label(*[x for x in hits if x])
    ctx.hit('child' in hits and len(hits - set([None])) > 1)


PROP = Prop(
    'P15', [Sub('wrapper', cases, run, 20000),
            Sub('children', getattr_cases, run_getattr, 16000)],
    rule='Histories mixing attribute and item access through a wrapper '
         '(AttributeAccess around dictionaries, nodes and wrappers, '
         'as_attribute_access, attrs with attribute access) and directly on '
         'the wrapped object; nodes with GetattrChildren whose children are '
         'named like real attributes or like nothing. Non-trivial: items '
         'were set by attribute and in another way; a child and another '
         'kind of attribute was read.',
    assumptions=['names which are attributes of the wrapper itself are '
                 'excluded', 'delattr on wrappers is not judged'])
