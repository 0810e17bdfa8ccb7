# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, forest, gen, lifelog
from vt.core import Prop, Sub, eq, same
from vt.mapmodel import map_ops
from vt.props import p02

READS = ['get', 'missing', 'in', 'keys', 'values', 'items', 'iterate', 'path',
         'root', 'acquire', 'filter', 'repr', 'treerepr', 'attrs', 'spaces',
         'uuids', 'copy', 'deepcopy', 'serialize', 'lookup', 'locations',
         'interfaces', 'dir', 'truth', 'default', 'access', 'settings',
         'compare', 'failing']


class Nothing(object):
    pass


def read(node, what, i, key):
    """Read from a node, whatever comes out."""
    from node.interfaces import IAttributes
    from node.interfaces import INode
    from node.interfaces import INodespaces
    from node.interfaces import IOrdered
    from node.interfaces import IReference
    from node.interfaces import IUUIDAware
    keys = list(node.keys())
    some = gen.pick(keys, i)
    if what == 'get':
        if keys:
            node[some]
            node.get(some)
    elif what == 'missing':
        if key not in node:
            try:
                node[key]
            except KeyError:
                pass
    elif what == 'in':
        key in node, node.has_key(key)
        if keys:
            some in node
    elif what in ('keys', 'values', 'items'):
        # what is read belongs to the reader
        got = getattr(node, what)()
        if isinstance(got, list):
            got.reverse()
            del got[i % 3:]
    elif what == 'iterate':
        # not to the end
        for it in (iter(node), node.iterkeys(), node.itervalues(),
                   node.iteritems()):
            for _ in range(i % 3):
                next(it, None)
    elif what == 'path':
        node.path.append('x')
        del node.path[:1]
    elif what == 'root':
        node.root, node.name, node.parent
    elif what == 'acquire':
        node.acquire(INode), node.acquire(type(node)), node.acquire(Nothing)
    elif what == 'filter':
        nodes = [x for x in node.values() if INode.providedBy(x)]
        if len(nodes) == len(keys):
            got = node.filteredvalues(IOrdered)
            del got[:]
            list(node.filtereditervalues(INode))
    elif what == 'repr':
        repr(node), str(node), '{}'.format(node)
    elif what == 'treerepr':
        node.treerepr()
        node.treerepr(indent=i, prefix='-')
    elif what == 'attrs':
        if IAttributes.providedBy(node):
            attrs = node.attrs
            list(attrs.items()), attrs.get('none'), 'none' in attrs
            repr(attrs), attrs.path, attrs.treerepr()
            same(node.attrs, attrs, 'attributes read again')
            same(node['__attrs__'], attrs, 'attributes read as nodespace')
    elif what == 'spaces':
        if INodespaces.providedBy(node):
            spaces = node.nodespaces
            for name, space in list(spaces.items()):
                same(node[name], space, 'nodespace read again')
            same(node.nodespaces, spaces, 'nodespaces read again')
            node.nodespaces.get('__none__')
            node['__children__']
    elif what == 'uuids':
        if IReference.providedBy(node):
            node.uuid, node.node(i), node.index.get(i), i in node.index
            node.node(node.uuid)
        elif IUUIDAware.providedBy(node):
            node.uuid
    elif what == 'copy':
        if not IUUIDAware.providedBy(node) and not IReference.providedBy(node):
            new = node.copy()
            del new
    elif what == 'deepcopy':
        if node.parent is None:
            new = node.deepcopy()
            new.__name__ = 'copied'
            new.clear()
    elif what == 'serialize':
        from node.serializer import serialize
        if node.parent is None:
            for simple in (False, True):
                try:
                    serialize(node, simple_mode=simple)
                except (TypeError, ValueError):
                    # keys and values JSON does not know
                    pass
    elif what == 'lookup':
        from node.utils import node_by_path
        for path in ('', '/', [], ['none']) + (([some],) if keys else ()):
            try:
                node_by_path(node, path)
            except KeyError:
                pass
    elif what == 'locations':
        from node.utils import LocationIterator
        list(LocationIterator(node))
        next(LocationIterator(node))
    elif what == 'interfaces':
        from zope.interface import providedBy
        list(providedBy(node)), INode(node, None), IOrdered(node, None)
    elif what == 'dir':
        dir(node), hasattr(node, 'children_'), getattr(node, 'no_such', None)
    elif what == 'truth':
        bool(node), len(node), not node
    elif what == 'default':
        new = classes.shipped('BaseNode')() if i % 2 else Nothing()
        same(node.get(key, new), node[key] if key in node else new, 'get()')
    elif what == 'access':
        if hasattr(type(node), 'as_attribute_access'):
            access = node.as_attribute_access()
            hasattr(access, 'no_such'), repr(access)
    elif what == 'settings':
        for name in ('allow_non_node_childs', 'child_factory', 'aliaser',
                     'fallback_key', 'cache', 'events'):
            getattr(node, name, None)
    elif what == 'compare':
        node == node, node != node, node == {}, hash(type(node))
    elif what == 'failing':
        # aliasers of text know texts only
        aliased = getattr(node, 'aliaser', None) is not None
        for bad in () if aliased else ([], {}):
            try:
                node[bad]
            except (TypeError, KeyError):
                pass


class Twin(forest.Forest):
    """The same history with or without reads in between."""

    def __init__(self, *args, **kw):
        forest.Forest.__init__(self, *args, **kw)
        self.reads = 0
        self.skip = ()
        self.held = {}

    def do_attr(self, n, i, v):
        m = self.node(n)
        if m.kind in forest.ATTRS:
            attrs = self.held.setdefault(m.num, m.real.attrs)
            same(m.real.attrs, attrs, 'attributes')
            attrs[self.key(i)] = v
            same(m.real.attrs[self.key(i)], v, 'attribute')
            self.ctx.label('attr')

    def do_noattr(self, n, i):
        m = self.node(n)
        if m.kind in forest.ATTRS:
            m.real.attrs.pop(self.key(i), None)

    def do_space(self, n, i):
        m = self.node(n)
        if m.kind in forest.ATTRS:
            m.real['__space%d__' % (i % 4)] = classes.shipped('BaseNode')()
            self.ctx.label('space')

    def do_spaces(self, n, i):
        for j in range(i % 5):
            self.do_space(n, j)

    def do_read(self, what, n, i):
        if what in self.skip:
            return
        m = self.node(n)
        read(m.real, what, i, self.key(i))
        self.reads += 1

    def picture(self):
        """Everything there is to see, nodes as numbers."""
        from node.interfaces import INode
        nums = dict((id(m.real), m.num) for m in self.nodes)

        def see(ob):
            if id(ob) in nums:
                return ['node', nums[id(ob)]]
            return ob if not INode.providedBy(ob) else type(ob).__name__
        res = []
        for m in self.nodes:
            real = m.real
            own = dict(name=real.__name__, parent=see(real.__parent__),
                       items=[(k, see(v)) for k, v in real.items()],
                       type=type(real).__name__)
            if m.kind in forest.ATTRS:
                own['attrs'] = list(real.attrs.items())
                own['spaces'] = [(k, see(v)) for k, v in
                                 sorted(real.nodespaces.items())]
            if m.kind in forest.REFS:
                own['index'] = [x.num for x in self.nodes if x.kind in
                                forest.REFS and real.node(x.real.uuid)
                                is x.real]
                own['uuid'] = int(real.uuid) == m.uuid
            if not m.ordered:
                own['items'].sort(key=repr)
            res.append(own)
        return res

    def events(self):
        nums = dict((id(m.real), m.num) for m in self.nodes)
        return [(type(e).__name__, nums.get(id(ob), type(ob).__name__),
                 nums.get(id(getattr(e, 'newParent', None))),
                 nums.get(id(getattr(e, 'oldParent', None))),
                 getattr(e, 'newName', None), getattr(e, 'oldName', None))
                for e, ob in lifelog.take()]


def cases(kinds):
    def strategy(tier):
        n = st.integers(0, 30)
        res = forest.forest_cases(kinds, gen.anykeys(), forest.forest_ops([
            (3, gen.op('attr', n, gen.idx, n)),
            (1, gen.op('noattr', n, gen.idx)),
            (1, gen.op('space', n, n)),
            (1, gen.op('spaces', n, n)),
        ]), tier, quick=16)
        what = st.tuples(st.sampled_from(READS), n, gen.idx).map(list)
        return st.fixed_dictionaries({
            'history': res,
            'reads': st.lists(st.lists(what, max_size=3), min_size=1,
                              max_size=8)})
    return strategy


def run(overwrite):
    def run(case, ctx):
        history = case['history']
        twins = []
        for reading in (False, True):
            lifelog.install()
            twin = Twin(history['kinds'], history['keys'], ctx, overwrite)
            twin.create(0, name='root')
            for i, op in enumerate(history['ops']):
                if reading:
                    reads(twin, case, i, ctx)
                twin.step(op)
            if reading:
                reads(twin, case, len(history['ops']), ctx)
            twins.append((twin, twin.events()))
        (quiet, events), (read_, more) = twins
        # copies are new nodes, which are created
        eq([x for x in more if x[0] != 'NodeCreatedEvent'
            and isinstance(x[1], int)],
           [x for x in events if x[0] != 'NodeCreatedEvent'],
           'lifecycle events of the history with reads')
        want, got = quiet.picture(), read_.picture()
        eq(len(got), len(want), 'number of nodes')
        for i, (a, b) in enumerate(zip(got, want)):
            for name in b:
                eq(a[name], b[name], '%s of node %d after a history with '
                   'reads' % (name, i))
        quiet.check_location()
        read_.check_location()
        ctx.hit(read_.reads >= 3 and read_.puts >= 2)
    return run


def reads(twin, case, i, ctx):
    for what, n, k in case['reads'][i % len(case['reads'])]:
        twin.do_read(what, n, k)
        ctx.label('read ' + what)


# ---------------------------------------------------------------------------
# random compositions

def composed_cases(tier):
    what = st.tuples(st.sampled_from(READS), gen.idx).map(list)
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(classes.CANONICAL[:-2]),
                          max_size=9, unique=True),
        'odict': st.booleans(),
        'nonnodes': st.booleans(),
        'prefix': st.booleans(),
        'keys': gen.pool(gen.anykeys()),
        'ops': gen.ops(*map_ops(fill=5), min_size=2,
                       max_size=gen.size(tier, 16, 40)),
        'reads': st.lists(st.lists(what, max_size=3), min_size=1,
                          max_size=8)})


def state_of(driver, made, flags):
    nums = dict((id(x), i) for i, x in enumerate(made))
    node = driver.node

    def see(ob):
        return nums.get(id(ob), repr(type(ob)))
    res = dict(items=[(k, see(v)) for k, v in node.items()],
               name=node.__name__, parent=node.__parent__)
    if not driver.ordered:
        res['items'].sort(key=repr)
    if 'Attributes' in flags:
        res['attrs'] = list(node.attrs.items())
    if 'Nodespaces' in flags:
        res['spaces'] = sorted(node.nodespaces)
    if 'Reference' in flags:
        res['index'] = [i for i, x in enumerate(made)
                        if hasattr(x, 'uuid') and not isinstance(x, type)
                        and node.node(x.uuid) is x]
    res['places'] = [(i, getattr(x, '__name__', None),
                      getattr(x, '__parent__', None) is node)
                     for i, x in enumerate(made)
                     if hasattr(x, 'treerepr') and not isinstance(x, type)]
    return res


def run_composed(case, ctx):
    from node.interfaces import INode
    results = []
    count = 0
    for reading in (False, True):
        lifelog.install()
        driver = p02.setup(case, ctx)
        flags = p02.composition(case)[1]
        made = []
        factory = driver.factory

        def keep(i, factory=factory, made=made):
            res = factory(i)
            if INode.providedBy(res):
                made.append(res)
            return res
        driver.factory = keep
        for i, op in enumerate(case['ops']):
            if reading:
                for what, k in case['reads'][i % len(case['reads'])]:
                    nodes = [driver.node] + made
                    node = driver.node if k % 3 else gen.pick(nodes, k)
                    key = driver.key(k)
                    read(node, what, k, key)
                    ctx.label('read ' + what)
                    count += 1
            driver.step(op, True)
        known = dict((id(x), i) for i, x in enumerate(made))
        known[id(driver.node)] = 'root'
        events = [(type(e).__name__, known[id(ob)])
                  for e, ob in lifelog.take() if id(ob) in known]
        results.append((state_of(driver, made, flags), events))
        driver.check()
    (want, events), (got, more) = results
    eq(more, events, 'lifecycle events of the history with reads')
    for name in want:
        eq(got[name], want[name], name + ' after a history with reads')
    ctx.hit(count >= 3 and driver.mutations >= 2)


PROP = Prop(
    'P41', [Sub('plain', cases(forest.PLAIN), run(True), 5000),
            Sub('references', cases(forest.REFS), run(False), 5000),
            Sub('compositions', composed_cases, run_composed, 6000)],
    rule='Each history (forests of up to 60 nodes; mapping histories on '
         'random compositions) runs twice, once with up to three of 29 kinds '
         'of reads before each operation (mapping reads, partial iteration, '
         'paths, representations, attributes, nodespaces, index, copies, '
         'serialization, lookups). Children, order, locations, attributes, '
         'nodespaces, uuids, index and lifecycle events of both runs are '
         'compared. Non-trivial: at least three reads and two changes.',
    assumptions=['accessing attributes creates their nodespace',
                 'copies notify about their own creation'])
