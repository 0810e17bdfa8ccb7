# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, fail, raises, same
from vt.gen import dk
from vt.props import p02

BEHAVIORS = {
    'BaseNode': ['NodeChildValidate', 'Adopt', 'AsAttrAccess', 'DefaultInit',
                 'Nodify', 'DictStorage'],
    'OrderedNode': ['NodeChildValidate', 'Adopt', 'AsAttrAccess',
                    'DefaultInit', 'Nodify', 'OdictStorage'],
    'Node': ['NodeChildValidate', 'Nodespaces', 'Adopt', 'Attributes',
             'Reference', 'Order', 'AsAttrAccess', 'DefaultInit', 'Nodify',
             'OdictStorage'],
    'attrs': ['NodeChildValidate', 'Adopt', 'Nodify', 'OdictStorage'],
}
BEHAVIORS['AttributedNode'] = BEHAVIORS['Node']


def interfaces(ob):
    from zope.interface import Interface, providedBy
    return set(x for x in providedBy(ob).__iro__ if x is not Interface)


def of_behaviors(names):
    """The interfaces the behaviors declare."""
    import node.behaviors as b
    from zope.interface import Interface, implementedBy
    res = set()
    for name in names:
        res.update(implementedBy(getattr(b, name)).__iro__)
    return set(x for x in res if x is not Interface
               and 'Behavior' not in x.__name__ and hasattr(x, 'names'))


def honours(ob, what):
    from zope.interface.exceptions import Invalid
    from zope.interface.verify import verifyObject
    for iface in sorted(interfaces(ob), key=lambda x: x.__identifier__):
        try:
            verifyObject(iface, ob)
        except Invalid as e:
            fail('%s does not fulfil %s: %s', what, iface.__name__,
                 ' '.join(str(e).split()))


def provides(ob, want, what):
    want = of_behaviors(want)
    got = interfaces(ob)
    eq(sorted(x.__identifier__ for x in got if x in want),
       sorted(x.__identifier__ for x in want),
       'interfaces of its behaviors provided by %s' % what)
    extra = [x.__identifier__ for x in got - want
             if x.__module__ == 'node.interfaces']
    eq(extra, [], 'other interfaces provided by %s' % what)


def object_protocol(ob, twin, name, what, truth=True, text=True):
    same(bool(ob), truth, 'truth of %s' % what)
    check(ob == ob and not ob != ob, '%s differs from itself', what)
    check(not ob == twin and ob != twin, '%s equals another one', what)
    eq(hash(ob), hash(ob), 'hash of %s' % what)
    table = {ob: 1, twin: 2}
    eq((len(table), table[ob], table[twin]), (2, 1, 2), 'hashing %s' % what)
    check(ob in [twin, ob] and [twin, ob].index(ob) == 1,
          '%s not found in a list', what)
    if hasattr(ob, '__parent__'):
        # declared as read only
        for key in ('name', 'parent'):
            value = getattr(ob, key)
            raises(AttributeError, setattr, ob, key, twin)
            raises(AttributeError, delattr, ob, key)
            same(getattr(ob, key), value, '%s of %s' % (key, what))
    if not text:
        # attributes show the name of their node or their own
        return
    text = repr(ob)
    start = "<%s object '%s' at 0x" % (type(ob).__name__, name)
    check(type(text) is str and text.startswith(start)
          and text.endswith('>'), 'repr of %s: %s, want %s...>', what, text,
          start)
    eq(str(ob), text, 'str of %s' % what)
    eq('%s' % (ob,), text, 'formatted %s' % what)


def cases(tier):
    return st.tuples(p02.cases(tier), st.fixed_dictionaries({
        'shipped': gen.one_of(st.none(), st.none(), st.none(),
                              st.sampled_from(classes.TREE_TYPES)),
        'sub': st.sampled_from([0, 0, 0, 1, 2]),
        'title': gen.idents(),
        'name': gen.anykeys(),
        'named': st.booleans(),
        'truth': st.sampled_from([None, None, None, False, True]),
        'when': st.integers(0, 12),
    })).map(lambda x: dict(x[0], **x[1]))


def run(case, ctx):
    if case['shipped']:
        cls = classes.shipped(case['shipped'])
        want = BEHAVIORS.get(case['shipped'])
        ordered = case['shipped'] != 'BaseNode'
        title = cls.__name__
        factory = [cls] if want and 'Reference' in want else [
            cls, classes.shipped('Node')]
        flags = want or ()
        ctx.label('shipped')
    else:
        cls, flags, ordered = p02.composition(case)
        want = flags + ['OdictStorage' if ordered else 'DictStorage']
        title = cls.__name__
        factory = [cls]
    for _ in range(case['sub']):
        title = case['title']
        attrs = {}
        if case['truth'] is not None:
            # a class may decide for itself
            attrs['__bool__'] = lambda self: case['truth']
        cls = type(str(title), (cls,), attrs)
        ctx.label('subclass')
    truth = True
    if case['sub'] and case['truth'] is not None:
        truth = case['truth']
    name = dk(case['name'])
    if not case['named']:
        root, twin = cls(), cls()
        name = None
    else:
        root, twin = cls(name=name), cls(name)
    driver = p02.MapDriver(
        root, case['keys'], lambda i: factory[i % len(factory)](),
        ordered=ordered, ctx=ctx,
        node_factory=classes.shipped('OrderedNode')
        if not case['nonnodes'] else None)

    def judge(when):
        if want is not None:
            provides(root, want, 'node ' + when)
        honours(root, 'node ' + when)
        object_protocol(root, twin, name, 'node ' + when, truth)
        if want and 'Attributes' in want:
            attrs = root.attrs
            provides(attrs, BEHAVIORS['attrs'], 'attributes ' + when)
            honours(attrs, 'attributes ' + when)
            object_protocol(attrs, twin.attrs, None, 'attributes',
                            text=False)
        if want and 'Nodespaces' in want:
            for space in list(root.nodespaces.values()):
                honours(space, 'nodespace ' + when)
    judge('at first')
    for i, op in enumerate(case['ops']):
        driver.step(op)
        if i == case['when']:
            judge('in between')
    judge('at last')
    for key, child in list(driver.model.items())[:2]:
        if hasattr(child, 'treerepr'):
            honours(child, 'child')
            other = type(child)()
            object_protocol(child, other, child.name, 'child')
            same(root == child, False, 'node equals its child')
    ctx.hit(driver.mutations >= 2)


# -- everything else the package declares interfaces for

AFFIXES = ['', 'a', 'pre-', None]


def other_cases(tier):
    text = st.sampled_from(AFFIXES)
    i = st.integers(0, 3)
    return st.lists(gen.one_of(
        st.tuples(st.just('dict'), st.lists(st.tuples(
            gen.names(), gen.names()).map(list), max_size=3), st.booleans()),
        st.tuples(st.just('prefix'), text),
        st.tuples(st.just('suffix'), text),
        st.tuples(st.just('both'), text, text),
        st.tuples(st.just('chain'), st.lists(text, max_size=2)),
        st.tuples(st.just('event'), st.sampled_from(
            ['Created', 'Added', 'Modified', 'Removed', 'Detached']),
            i),
        st.tuples(st.just('dispatcher')),
        st.tuples(st.just('index'), i, i),
        st.tuples(st.just('factory'), st.lists(gen.names(), max_size=3,
                                               unique=True), st.booleans()),
        st.tuples(st.just('lifecycle'), st.lists(gen.names(), max_size=2)),
    ).map(list), min_size=1, max_size=4)


def build(spec):
    """Object, names of interfaces it has to provide."""
    import node.behaviors as b
    import node.behaviors.alias as a
    import node.events as e
    what = spec[0]
    if what == 'dict':
        return a.DictAliaser(spec[1], strict=spec[2]), ['IAliaser']
    if what == 'prefix':
        return a.PrefixAliaser(spec[1]), ['IAliaser']
    if what == 'suffix':
        return a.SuffixAliaser(spec[1]), ['IAliaser']
    if what == 'both':
        return a.PrefixSuffixAliaser(spec[1], spec[2]), ['IAliaser']
    if what == 'chain':
        chain = a.AliaserChain(chain=[a.PrefixAliaser(x) for x in spec[1]])
        return chain, ['IAliaser']
    if what == 'dispatcher':
        return e.EventDispatcher(), ['IEvents']
    if what == 'event':
        kinds = classes.TREE_TYPES
        ob = classes.shipped(kinds[spec[2] % len(kinds)])()
        cls = getattr(e, 'Node%sEvent' % spec[1])
        event = cls(ob)
        same(event.object, ob, 'object of event')
        return event, ['INode%sEvent' % spec[1]]
    if what == 'index':
        root = classes.shipped(classes.REF_TYPES[spec[1] % 2])()
        for n in range(spec[2]):
            root['c%d' % n] = classes.shipped('Node')()
        return root.index, []
    if what == 'factory':
        if spec[2]:
            cls = classes.build('Lazy', (
                'Adopt', 'VolatileStorageInvalidate', 'ChildFactory',
                'DefaultInit', 'Nodify', 'OdictStorage'))
            ob = cls(name='x')
            ob.factories = dict(
                (key, classes.shipped('BaseNode')) for key in spec[1])
            names = ['IChildFactory', 'IInvalidate', 'INode', 'IOrdered']
        else:
            from plumber import plumbing
            cls = type('Fixed', (object,), dict(
                fixed_children_factories=[
                    (key, classes.shipped('BaseNode')) for key in spec[1]]))
            ob = plumbing(b.FixedChildren, b.Nodify)(cls)()
            names = ['IFixedChildren', 'INode']
        eq(sorted(ob.keys()), sorted(spec[1]), 'keys')
        return ob, names
    cls = classes.compose(
        ['Lifecycle', 'Attributes', 'Adopt', 'NodeChildValidate'],
        'OdictStorage')
    ob = cls(name='x')
    for key in spec[1]:
        ob.attrs[key] = key
    return ob, ['ILifecycle', 'IAttributes', 'INode']


def run_others(case, ctx):
    import node.interfaces
    for spec in case:
        ob, names = build(spec)
        for name in names:
            iface = getattr(node.interfaces, name)
            check(iface.providedBy(ob), '%s does not provide %s', spec[0],
                  name)
        honours(ob, spec[0])
        ctx.label(spec[0])
    ctx.hit(len(case) > 1)


PROP = Prop(
    'P38', [Sub('nodes', cases, run, 10000),
            Sub('others', other_cases, run_others, 6000)],
    rule='Shipped node types and random compositions of up to 9 behaviors, '
         'subclassed or not (with own truth value), with any name, during '
         'histories of mapping operations: exactly the interfaces of the '
         'behaviors are provided by the node and its attributes, each is '
         'verified with its attributes and method signatures; truth, '
         'equality, hash and text of nodes. The same for aliasers, events, '
         'dispatchers, indexes, factory and fixed nodes with random '
         'arguments. Non-trivial: at least two mutations, or two objects.',
    assumptions=['interfaces are those declared by the behaviors in the '
                 'working tree'])
