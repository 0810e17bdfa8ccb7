# -*- coding: utf-8 -*-
import uuid

from hypothesis import strategies as st

from vt import classes, gen, lifelog
from vt.core import Prop, Sub, check, eq, raises, same
from vt.gen import dk

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle', 'Adopt',
         'Attributes', 'Cache', 'VolatileStorageInvalidate', 'Reference',
         'Order', 'AsAttrAccess', 'GetattrChildren', 'UnicodeAware', 'Alias',
         'Fallback', 'Events']
FIXED = ['Nodespaces', 'UUIDAware', 'Lifecycle', 'Attributes', 'AsAttrAccess',
         'UnicodeAware', 'Events']
SETTINGS = ['allow_non_node_childs', 'attribute_access_for_attrs',
            'attributes_factory', 'uuid_factory', 'aliaser', 'events',
            'cache']


def cases(tier):
    json = st.recursive(gen.one_of(
        st.none(), st.integers(-2, 2), gen.names(), st.booleans()),
        lambda c: st.lists(c, max_size=2), max_leaves=3)
    kw = st.dictionaries(gen.one_of(
        gen.idents(), st.sampled_from([
            'name', 'parent', 'key', 'index', 'uuid', 'aliaser', 'events',
            'data', 'args', 'kw'])), json, max_size=3)
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=7, unique=True),
        'odict': st.booleans(),
        'fixed': st.sampled_from([False, False, True]),
        'children': st.lists(gen.names(), max_size=3, unique=True),
        'init': st.sampled_from(['own', 'own', 'default', 'raise']),
        'subs': st.lists(st.booleans(), max_size=2),
        'args': st.lists(json, max_size=4),
        'kw': kw,
        'name': gen.anykeys(),
        'parent': st.booleans(),
        'how': st.integers(0, 5),
        'settings': st.lists(st.tuples(
            st.sampled_from(SETTINGS), st.integers(0, 2)).map(list),
            max_size=3, unique_by=lambda x: x[0]),
    })


class Boom(Exception):
    pass


def run(case, ctx):
    from plumber import plumbing
    import node.behaviors as b
    import node.events
    flags = [x for x in case['flags'] if case['odict'] or x != 'Order']
    own = case['init'] != 'default'
    attrs = {}
    if case['fixed']:
        flags = [x for x in flags if x in FIXED]
        names = [x for x in classes.normalize(flags) if x != 'DefaultInit']
        names = ['FixedChildren'] + names
        if not own:
            names.insert(-1, 'DefaultInit')
        attrs['fixed_children_factories'] = [
            (key, classes.shipped('BaseNode')) for key in case['children']]
    else:
        names = classes.normalize(flags)
        if own:
            names.remove('DefaultInit')
        names.append('OdictStorage' if case['odict'] else 'DictStorage')
    log = []

    def init(self, *args, **kw):
        log.append(('own', self, args, kw))
        if case['init'] == 'raise':
            raise boom

    boom = Boom()
    if own:
        attrs['__init__'] = init
    # where each setting is made: on the class, or on a subclass, or on that
    levels = [{} for _ in range(1 + len(case['subs']))]
    settings = {}
    for name, level in case['settings']:
        value = make_setting(name, names)
        if value is not None:
            settings[name] = value
            levels[level % len(levels)][name] = value
    attrs.update(levels[0])
    base = cls = plumbing(*[getattr(b, x) for x in names])(
        type('Built', (object,), attrs))
    for n, init_too in enumerate(case['subs']):
        cls = subclass(cls, init_too, n, levels[n + 1], log)
    created = []

    def subscriber(ob, ev):
        if isinstance(ev, node.events.NodeCreatedEvent):
            created.append((ev, len(log)))
    lifelog.install(subscriber)
    try:
        build(case, ctx, cls, base, names, own, log, boom, created, settings)
    finally:
        lifelog.install()


def subclass(base, init_too, n, attrs, log):
    def init(self, *args, **kw):
        log.append((n, self, args, kw))
        super(cls, self).__init__(*args, **kw)
    attrs = dict(attrs)
    if init_too:
        attrs['__init__'] = init
    cls = type('Sub%d' % n, (base,), attrs)
    return cls


def make_setting(name, names):
    import node.behaviors as b
    import node.behaviors.alias as a
    import node.events as e
    need = dict(allow_non_node_childs='NodeChildValidate',
                attribute_access_for_attrs='Attributes',
                attributes_factory='Attributes', uuid_factory='UUIDAware',
                aliaser='Alias', events='Lifecycle', cache='Cache')[name]
    if need not in names:
        return None
    if name == 'attributes_factory':
        return type('OwnAttributes', (b.NodeAttributes,), {})
    if name == 'uuid_factory':
        made = []

        def uuid_factory(self):
            made.append(uuid.UUID(int=len(made) + 1))
            return made[-1]
        uuid_factory.made = made
        return uuid_factory
    if name == 'aliaser':
        return a.PrefixAliaser('p-')
    if name == 'events':
        return dict(created=type('OwnCreated', (e.NodeCreatedEvent,), {}),
                    added=e.NodeAddedEvent, modified=e.NodeModifiedEvent,
                    removed=e.NodeRemovedEvent, detached=e.NodeDetachedEvent)
    if name == 'cache':
        return dict()
    return True


def build(case, ctx, cls, base, names, own, log, boom, created, settings):
    import node.events
    parent = classes.shipped('BaseNode')(name='parent') \
        if case['parent'] else None
    name = dk(case['name'])
    if own:
        args, kw = list(case['args']), dict(case['kw'])
    else:
        args, kw = [
            ([name, parent], {}), ([name], dict(parent=parent)),
            ([], dict(name=name, parent=parent)),
            ([name], {}), ([], dict(name=name)), ([], {})][case['how']]
        if case['how'] >= 3:
            parent = None
        if case['how'] == 5:
            name = None
    if case['init'] == 'raise':
        try:
            cls(*args, **kw)
        except Boom as e:
            same(e, boom, 'exception of the constructor')
        else:
            check(False, 'exception of the constructor is lost')
        eq(created, [], 'created events of a node not created')
        ctx.label('raise')
        ctx.hit(bool(args or kw))
        return
    nodes = []
    for turn in range(2):
        del log[:]
        del created[:]
        ob = cls(*args, **kw)
        nodes.append(ob)
        want = [n for n, x in reversed(list(enumerate(case['subs']))) if x]
        if own:
            want.append('own')
        eq([x[0] for x in log], want, 'constructors called')
        for who, this, a, k in log:
            same(this, ob, 'instance')
            eq((list(a), k), (args, kw), 'arguments of constructor %s' % who)
            for x, y in zip(a, args):
                same(x, y, 'argument')
            for key in k:
                same(k[key], kw[key], 'argument')
        if 'Lifecycle' in names:
            eq(len(created), 1, 'created events')
            same(created[0][0].object, ob, 'object of created event')
            eq(created[0][1], len(log), 'constructors before the event')
            same(type(created[0][0]), settings['events']['created']
                 if 'events' in settings else node.events.NodeCreatedEvent,
                 'class of created event')
        else:
            eq(created, [], 'created events')
        fresh(case, ob, names, own, name, parent, settings, turn)
    one, two = nodes
    for attr in ('uuid',):
        if hasattr(one, attr) and getattr(one, attr) is not None:
            check(one.uuid != two.uuid, 'two nodes have the same uuid')
    effects(case, one, names, settings, ctx)
    eq(sorted(str(x) for x in two.keys()),
       sorted(case['children'] if case['fixed'] else []),
       'children of the other node')
    if not own:
        raises(TypeError, cls, unknown_argument=1)
        raises(TypeError, cls, 'a', None, None)
    for key in settings:
        ctx.label(key)
    for key in names:
        ctx.label(key)
    ctx.hit(bool(args or kw) and len(names) > 4)


def fresh(case, ob, names, own, name, parent, settings, turn):
    """State of a new node."""
    if own:
        same(ob.name, None, 'name')
        same(ob.parent, None, 'parent')
    else:
        eq(ob.name, name, 'name')
        same(type(ob.name), type(name), 'type of name')
        same(ob.parent, parent, 'parent')
        if parent is not None:
            eq(list(parent), [], 'children of the parent')
    eq(list(ob.keys()), case['children'] if case['fixed'] else [],
       'children')
    if 'Reference' in names:
        check(isinstance(ob.uuid, uuid.UUID), 'uuid is %r', ob.uuid)
        same(ob.node(ob.uuid), ob, 'node in its own index')
    if 'UUIDAware' in names:
        if 'uuid_factory' in settings:
            same(ob.uuid, settings['uuid_factory'].made[turn], 'uuid')
            eq(len(settings['uuid_factory'].made), turn + 1, 'uuids made')
        else:
            check(isinstance(ob.uuid, uuid.UUID), 'uuid is %r', ob.uuid)
    if 'Attributes' in names and not settings.get(
            'attribute_access_for_attrs'):
        eq(list(ob.attrs), [], 'attributes')


def effects(case, ob, names, settings, ctx):
    """Settings of the class are in force."""
    from node.behaviors import NodeAttributes
    from node.utils import AttributeAccess
    if 'Attributes' in names:
        attrs = ob.attrs
        if settings.get('attribute_access_for_attrs'):
            same(type(attrs), AttributeAccess, 'type of attrs')
            attrs.some = 1
            eq(attrs['some'], 1, 'attribute')
        else:
            same(type(attrs), settings.get('attributes_factory',
                                           NodeAttributes), 'type of attrs')
            attrs['some'] = 1
        inner = ob.nodespaces['__attrs__']
        same(type(inner), settings.get('attributes_factory', NodeAttributes),
             'type of attributes')
        eq(list(inner.items()), [('some', 1)], 'attributes')
        same(inner.parent, ob, 'parent of attributes')
    if case['fixed']:
        return
    prefix = 'p-' if 'aliaser' in settings else ''
    if 'NodeChildValidate' in names and 'Reference' not in names:
        if settings.get('allow_non_node_childs'):
            ob[prefix + 'x'] = 1
            eq(ob[prefix + 'x'], 1, 'non node child')
        else:
            raises(ValueError, ob.__setitem__, prefix + 'x', 1)
    child = classes.shipped('Node' if 'Reference' in names else 'BaseNode')()
    key = prefix + 'c'
    ob[key] = child
    if 'aliaser' in settings:
        check('c' in list(ob.storage), 'aliaser is not used')
        raises(KeyError, ob.__getitem__, 'c') \
            if 'Cache' not in names else None
    same(ob[key], child, 'child')
    if 'cache' in settings:
        same(settings['cache'].get(key), child, 'child in the cache')


PROP = Prop(
    'P40', [Sub('construction', cases, run, 24000)],
    rule='Random compositions of up to 7 behaviors over a storage or over '
         'fixed children, with an own constructor (recording its arguments, '
         'or raising), or the default one, up to two subclasses with or '
         'without constructor, random arguments; settings made on the class '
         'or a subclass. Every constructor is called once with the very '
         'arguments, state and created events of the new node, and the '
         'effect of the settings are checked. Non-trivial: arguments and '
         'more than four behaviors.',
    assumptions=['arguments of constructors are not named self or _next'])
