# -*- coding: utf-8 -*-
"""A forest of real nodes driven in parallel with a plain model."""
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Violation, check, eq, fail, raises, same, short
from vt.gen import dk, idx, op

COMPOSED = {
    'DictRef': (['NodeChildValidate', 'Adopt', 'Reference'], 'DictStorage'),
    'OrderedRef': (['NodeChildValidate', 'Adopt', 'Reference', 'Order'],
                   'OdictStorage'),
    'EventRef': (['NodeChildValidate', 'Nodespaces', 'Lifecycle', 'Adopt',
                  'Attributes', 'Cache', 'Reference', 'Order', 'AsAttrAccess'],
                 'OdictStorage'),
    'Rich': (['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
              'Adopt', 'Attributes', 'Cache', 'Order', 'AsAttrAccess',
              'UnicodeAware', 'Alias', 'Fallback'], 'OdictStorage'),
    'Lean': (['Adopt'], 'DictStorage'),
    'Empty': (['NodeChildValidate', 'Adopt', 'AsAttrAccess'], 'OdictStorage'),
    'Falsy': (['NodeChildValidate', 'Nodespaces', 'Lifecycle', 'Adopt',
               'Attributes', 'Order'], 'OdictStorage'),
    'EmptyRef': (['NodeChildValidate', 'Adopt', 'Reference', 'Order'],
                 'OdictStorage'),
}


def never(self):
    return False


def filled(self):
    return len(self) > 0


# nodes which are false (if empty)
TRUTH = {'Empty': filled, 'Falsy': never, 'EmptyRef': filled}
PLAIN = ['BaseNode', 'OrderedNode', 'MyNode', 'Rich', 'Lean', 'Empty',
         'Falsy']
REFS = ['Node', 'AttributedNode', 'OrderedRef', 'DictRef', 'EventRef',
        'EmptyRef']
ORDERED = ['OrderedNode', 'MyNode', 'Rich', 'Node', 'AttributedNode',
           'OrderedRef', 'EventRef', 'Empty', 'Falsy', 'EmptyRef']
ORDERING = ['Rich', 'Node', 'AttributedNode', 'OrderedRef', 'EventRef',
            'Falsy', 'EmptyRef']
ATTRS = ['Rich', 'Node', 'AttributedNode', 'EventRef', 'Falsy']


def node_class(kind):
    if kind in COMPOSED:
        flags, storage = COMPOSED[kind]
        attrs = []
        if kind in TRUTH:
            attrs = [('__bool__', TRUTH[kind]), ('__nonzero__', TRUTH[kind])]
        return classes.compose(flags, storage, attrs)
    return classes.shipped(kind)


PUT = ['set', 'setdefault', 'update', 'pairs', 'kw', 'insertfirst',
       'insertlast', 'insertbefore', 'insertafter']
REMOVE = ['del', 'pop', 'popdefault', 'popitem', 'detach']


def forest_ops(extra=()):
    n = st.integers(0, 30)
    return [
        (2, op('new', n, idx)),
        (6, op('grow', n, n, idx, st.sampled_from(PUT), n)),
        (6, op('put', n, idx, n, st.sampled_from(PUT), n)),
        (5, op('move', n, idx, n, st.sampled_from(PUT), n)),
        (4, op('remove', n, st.sampled_from(REMOVE))),
        (1, op('clear', n)),
        (1, op('chain', n, n, gen.one_of(
            st.integers(2, 12), st.integers(2, 12), st.integers(12, 40)))),
        (1, op('wide', n, n, gen.one_of(
            st.integers(2, 12), st.integers(2, 12), st.integers(12, 40)))),
    ] + list(extra)


class M(object):
    """Model of one node."""

    def __init__(self, real, kind, num):
        self.real = real
        self.kind = kind
        self.num = num
        self.children = {}
        self.parent = None
        self.key = None
        self.stale = False       # removed: location is unspecified
        self.ghost = None        # former parent, which a removed node keeps
        self.ordered = kind in ORDERED
        self.attrs = {}
        self.uuid = None

    def top(self):
        m = self
        while m.parent is not None:
            m = m.parent
        return m

    def subtree(self):
        res = [self]
        todo = [self]
        while todo:
            m = todo.pop()
            for c in m.children.values():
                res.append(c)
                todo.append(c)
        return res

    def depth(self):
        d, m = 0, self
        while m.parent is not None:
            d, m = d + 1, m.parent
        return d

    def height(self):
        if not self.children:
            return 0
        return 1 + max(c.height() for c in self.children.values())


class Forest(object):
    max_nodes = 60

    def __init__(self, kinds, keys, ctx, overwrite):
        self.kinds = kinds
        self.keys = [dk(k) for k in keys]
        self.ctx = ctx
        self.overwrite = overwrite
        self.nodes = []
        self.moves = 0
        self.puts = 0
        self.removals = 0

    # helpers

    def key(self, i):
        return self.keys[i % len(self.keys)]

    def create(self, k, **kw):
        kind = self.kinds[k % len(self.kinds)]
        real = node_class(kind)(**kw)
        m = M(real, kind, len(self.nodes))
        m.key = kw.get('name')
        if kind in REFS:
            m.uuid = int(real.uuid)
        self.nodes.append(m)
        self.created(m, k)
        return m

    def created(self, m, k):
        pass

    def node(self, i):
        return gen.pick(self.nodes, i)

    def roots(self):
        return [m for m in self.nodes if m.parent is None]

    # operations

    def step(self, op):
        getattr(self, 'do_' + op[0])(*op[1:])

    def do_new(self, k, i):
        if len(self.nodes) < self.max_nodes:
            self.create(k, name=self.key(i))
            self.ctx.label('new')

    def do_grow(self, p, k, i, how, r):
        if len(self.nodes) < self.max_nodes:
            parent = self.node(p)
            if parent is None:
                parent = self.create(p, name='root')
            child = self.create(k)
            self.attach(parent, self.key(i), child, how, r)

    def do_put(self, p, i, c, how, r):
        roots = self.roots()
        child = gen.pick(roots, c)
        parent = self.node(p)
        if child is None or child is parent.top() \
                or self.refuse(parent, child):
            return
        self.attach(parent, self.key(i), child, how, r)
        self.ctx.label('put')

    def do_move(self, p, i, c, how, r):
        """Detach a contained node and put it elsewhere."""
        parent = self.node(p)
        inner = [m for m in self.nodes if m.parent is not None
                 and not self.inside(parent, m)]
        child = gen.pick(inner, c)
        if child is None or self.refuse(parent, child):
            return
        key = self.key(i)
        if key in parent.children and not self.overwrite:
            return
        self.take(child, 'detach')
        if self.attach(parent, key, child, how, r):
            self.moves += 1
            self.ctx.label('move')

    def inside(self, m, top):
        while m is not None:
            if m is top:
                return True
            m = m.parent
        return False

    def refuse(self, parent, child):
        """Combinations outside of the domain."""
        if parent.depth() + child.height() > 40:
            return True
        # A removed node keeps its former parent as location. Putting that
        # former parent below it is the listed known finding of P04.
        m = parent
        while m is not None:
            if m is child:
                self.ctx.label('excluded-ghost-cycle')
                return True
            m = m.parent or m.ghost
        return False

    def attach(self, parent, key, child, how, r):
        """Make child, which is no one's child, a child of parent."""
        node, real = parent.real, child.real
        if isinstance(key, str) and gen.is_ns(key):
            key += '.'
        occupied = key in parent.children
        ordering = parent.kind in ORDERING
        if occupied and (not self.overwrite or how.startswith('insert')
                         or how == 'setdefault'):
            return False
        if how.startswith('insert') and not ordering:
            how = 'set'
        if how == 'kw' and (not isinstance(key, str)
                            or key in ('self', '_next')):
            how = 'set'
        if how in ('insertbefore', 'insertafter') and not parent.children:
            how = 'insertfirst'
        if occupied:
            self.lose(parent.children[key])
        index = len(parent.children)
        if how == 'set':
            node[key] = real
        elif how == 'setdefault':
            same(node.setdefault(key, real), real, 'setdefault()')
        elif how == 'update':
            node.update({key: real})
        elif how == 'pairs':
            node.update([(key, real)])
        elif how == 'kw':
            node.update(**{key: real})
        else:
            real.__name__ = key
            if how in ('insertbefore', 'insertafter'):
                ref = gen.pick(list(parent.children.values()), r)
                index = list(parent.children.values()).index(ref)
                index += how == 'insertafter'
                getattr(node, how)(real, ref.real)
            else:
                index = 0 if how == 'insertfirst' else index
                getattr(node, how)(real)
        self.ctx.label(how)
        self.link(parent, key, child, index)
        self.puts += 1
        return True

    def link(self, parent, key, child, index=None):
        if key in parent.children:
            parent.children[key] = child
            child.key = [k for k in parent.children if k == key][0]
        else:
            items = list(parent.children.items())
            items.insert(len(items) if index is None else index, (key, child))
            parent.children = dict(items)
            child.key = key
        child.parent = parent
        child.ghost = None
        child.stale = False

    def lose(self, child):
        """Model of a child that is no longer contained."""
        child.ghost = child.parent
        child.parent = None
        child.stale = True

    def take(self, child, how):
        parent = child.parent
        node = parent.real
        key = child.key
        if how == 'del':
            del node[key]
        elif how == 'pop':
            same(node.pop(key), child.real, 'pop()')
        elif how == 'popdefault':
            same(node.pop(key, None), child.real, 'pop()')
        elif how == 'detach':
            same(node.detach(key), child.real, 'detach()')
        else:
            key, real = node.popitem()
            if parent.ordered:
                eq(key, list(parent.children)[-1], 'popitem() key')
            check(key in parent.children, 'popitem() gave %r' % (key,))
            child = parent.children[key]
            same(real, child.real, 'popitem() value')
        del parent.children[child.key]
        self.lose(child)
        self.removals += 1
        self.ctx.label(how)

    def do_remove(self, c, how):
        inner = [m for m in self.nodes if m.parent is not None]
        child = gen.pick(inner, c)
        if child is not None:
            if child.children:
                self.ctx.label('remove-subtree')
            self.take(child, how)

    def do_clear(self, p):
        m = self.node(p)
        if m is None:
            return
        m.real.clear()
        for child in list(m.children.values()):
            self.lose(child)
        if m.children:
            self.ctx.label('clear')
        m.children = {}

    def do_chain(self, p, k, n):
        m = self.node(p)
        if m is None or m.depth() > 30:
            return
        for i in range(n):
            if len(self.nodes) < self.max_nodes:
                child = self.create(k + i)
                if not self.attach(m, self.key(i), child, 'set', 0):
                    break
                m = child
        self.ctx.label('chain')

    def do_wide(self, p, k, n):
        m = self.node(p)
        for i in range(n):
            if m is not None and len(self.nodes) < self.max_nodes:
                self.attach(m, 'wide%d' % i, self.create(k), 'set', 0)
        self.ctx.label('wide')

    # invariants

    def check_structure(self):
        """Children of every node are exactly those of the model."""
        for m in self.nodes:
            keys = list(m.real.keys())
            if m.ordered:
                eq(keys, list(m.children), 'keys of node %d' % m.num)
            else:
                eq(len(keys), len(m.children), 'len of keys of %d' % m.num)
                eq(set(keys), set(m.children), 'keys of node %d' % m.num)
            for key, value in m.real.items():
                same(value, m.children[key].real,
                     'child %r of node %d' % (key, m.num))

    def check_location(self):
        from node.utils import LocationIterator
        from node.utils import node_by_path
        for top in self.roots():
            for m in top.subtree():
                real = m.real
                if m is not top:
                    same(real.parent, m.parent.real, 'parent of %d' % m.num)
                    same(real.__parent__, m.parent.real, '__parent__')
                    eq(real.name, m.key, 'name of %d' % m.num)
                    eq(real.__name__, m.key, '__name__ of %d' % m.num)
                if top.stale:
                    continue
                same(real.root, top.real, 'root of %d' % m.num)
                names = []
                up = []
                x = m
                while x is not None:
                    names.insert(0, x.key)
                    up.append(x.real)
                    x = x.parent
                path = real.path
                eq(list(path), names, 'path of %d' % m.num)
                # a new list each time
                path.append('x')
                eq(list(real.path), names, 'path of %d' % m.num)
                got = list(LocationIterator(real))
                eq(len(got), len(up), 'number of locations')
                for a, b in zip(got, up):
                    same(a, b, 'location of %d' % m.num)
                same(node_by_path(top.real, real.path[1:]), real,
                     'node by path %r' % (real.path,))
                same(node_by_path(top.real, tuple(names[1:])), real,
                     'node by path tuple')
                text = names[1:]
                if all(isinstance(x, str) and '/' not in x for x in text) \
                        and all(text[:1] + text[-1:]):
                    path = '/'.join(names[1:])
                    for text in (path, '/' + path, path + '/'):
                        same(node_by_path(top.real, text), real,
                             'node by path %r' % text)
                if m.children:
                    key = list(m.children)[0]
                    same(node_by_path(real, [key]), m.children[key].real,
                         'node by relative path')
                else:
                    e = raises(KeyError, node_by_path, top.real,
                               names[1:] + ['missing', 'x'])
                    eq(e.args, ('missing',), 'KeyError of node_by_path()')

    def all_uuids(self):
        return [m.uuid for m in self.nodes if m.uuid is not None]

    def check_index(self):
        import uuid as u
        everything = self.all_uuids()
        for top in self.roots():
            members = top.subtree()
            expect = {}
            for m in members:
                expect[m.uuid] = m.real
            for m in members:
                real = m.real
                eq(int(real.uuid), m.uuid, 'uuid of %d' % m.num)
                index = real.index
                for n in everything:
                    want = expect.get(n)
                    where = 'seen from %d of tree %d' % (m.num, top.num)
                    same(real.node(n), want, 'node(int) ' + where)
                    same(index.get(n), want, 'index.get(int) ' + where)
                    same(n in index, want is not None,
                         'int in index ' + where)
                n = everything[m.num % len(everything)]
                want = expect.get(n)
                uid = u.UUID(int=n)
                d = object()
                same(real.node(uid), want, 'node(UUID)')
                same(uid in index, want is not None, 'UUID in index')
                same(index.get(uid, d), d if want is None else want,
                     'index.get(UUID, default)')
                if want is None:
                    raises(KeyError, index.__getitem__, uid)
                else:
                    same(index[uid], want, 'index[UUID]')
                    same(index[n], want, 'index[int]')


def forest_cases(kinds, keys, ops, tier, quick=20, thorough=50):
    n = gen.size(tier, quick, thorough)
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(kinds), min_size=1, max_size=3),
        'keys': gen.pool(keys, min_size=2, max_size=6),
        'ops': gen.one_of(gen.ops(*ops, max_size=10),
                         gen.ops(*ops, min_size=6, max_size=n),
                         gen.ops(*ops, min_size=12, max_size=n)),
        'reads': gen.reads(),
    })


class RefForest(Forest):
    """Forest of referencing nodes with explicit uuids."""

    def __init__(self, *args, **kw):
        Forest.__init__(self, *args, **kw)
        self.rejections = 0
        self.uuids = []

    def attach(self, parent, key, child, how, r):
        mine = set(m.uuid for m in parent.top().subtree())
        if not mine.intersection(m.uuid for m in child.subtree()):
            return Forest.attach(self, parent, key, child, how, r)
        # uuid already used by another node: must be refused
        if isinstance(key, str) and gen.is_ns(key):
            key += '.'
        if key in parent.children and how == 'setdefault':
            return False
        if how.startswith('insert') and parent.kind not in ORDERING:
            how = 'set'
        if how == 'kw' and (not isinstance(key, str)
                            or key in ('self', '_next')):
            how = 'set'
        if how in ('insertbefore', 'insertafter') and not parent.children:
            how = 'insertlast'
        if how.startswith('insert'):
            child.real.__name__ = key
        name, up = child.real.__name__, child.real.__parent__
        node, real = parent.real, child.real
        exc = (ValueError, KeyError)
        if how == 'set':
            raises(exc, node.__setitem__, key, real)
        elif how == 'setdefault':
            raises(exc, node.setdefault, key, real)
        elif how in ('insertfirst', 'insertlast'):
            raises(exc, getattr(node, how), real)
        elif how in ('insertbefore', 'insertafter'):
            ref = gen.pick(list(parent.children.values()), r)
            raises(exc, getattr(node, how), real, ref.real)
        elif how == 'kw':
            raises(exc, node.update, **{key: real})
        elif how == 'pairs':
            raises(exc, node.update, [(key, real)])
        else:
            raises(exc, node.update, {key: real})
        eq(child.real.__name__, name, 'name of refused node')
        same(child.real.__parent__, up, 'parent of refused node')
        self.refused('refused-' + how
                     + ('' if child.uuid in mine else '-deep'))
        return False

    def refused(self, label):
        self.rejections += 1
        self.ctx.label(label)
        self.check_structure()
        self.check_uuids()
        self.check_index()

    def check_uuids(self):
        for m in self.nodes:
            eq(int(m.real.uuid), m.uuid, 'uuid of %d' % m.num)

    def some_uuid(self, kind, i):
        if kind == 'small':
            return i % 6
        if kind == 'used':
            return self.node(i).uuid
        if kind == 'old' and self.uuids:
            return gen.pick(self.uuids, i)
        return (i + 1) << 64

    def set_uuid(self, m, n):
        import uuid as u
        used = any(x.uuid == n and x is not m for x in m.top().subtree())
        if used:
            raises(ValueError, setattr, m.real, 'uuid', u.UUID(int=n))
            self.refused('refused-uuid')
        else:
            m.real.uuid = u.UUID(int=n)
            self.uuids.append(m.uuid)
            m.uuid = n
            self.ctx.label('uuid-changed')
            if n == 0:
                self.ctx.label('nil-uuid')

    def do_uuid(self, i, kind, n):
        self.set_uuid(self.node(i), self.some_uuid(kind, n))

    def do_twin(self, k, length, kind, n, i):
        """New tree with a given uuid at the end of a chain."""
        if len(self.nodes) + length >= self.max_nodes:
            return
        m = self.create(k, name=self.key(i))
        for j in range(length):
            child = self.create(k + j)
            self.attach(m, self.key(i + j), child, 'set', 0)
            m = child
        self.set_uuid(m, self.some_uuid(kind, n))
        self.ctx.label('twin')

    def do_copy(self, i):
        roots = [m for m in self.roots() if not m.stale]
        m = gen.pick(roots, i)
        if m is None or len(self.nodes) + len(m.subtree()) > self.max_nodes:
            return
        self.register(m, m.real.deepcopy(), None, None)
        self.ctx.label('deepcopy')

    def register(self, m, real, parent, key):
        new = M(real, m.kind, len(self.nodes))
        new.uuid = m.uuid
        new.key = m.key
        self.nodes.append(new)
        if parent is not None:
            self.link(parent, key, new)
        for key, child in m.children.items():
            self.register(child, real[key], new, key)


def ref_ops():
    n = st.integers(0, 30)
    kind = st.sampled_from(['small', 'used', 'used', 'old', 'fresh'])
    return forest_ops([
        (3, op('uuid', n, kind, n)),
        (4, op('twin', n, st.integers(0, 3), kind, n, idx)),
        (1, op('copy', n)),
    ])


def do_clash(self, p, j, k, length, at, i, how, r):
    """Add a chain in which one node has a uuid already in the tree."""
    if len(self.nodes) + length + 1 >= self.max_nodes:
        return
    parent = self.node(p)
    used = gen.pick(parent.top().subtree(), j).uuid
    top = m = self.create(k, name=self.key(i))
    chain = [m]
    for x in range(length):
        child = self.create(k + x)
        self.attach(m, self.key(i + x), child, 'set', 0)
        chain.append(child)
        m = child
    self.set_uuid(chain[at % len(chain)], used)
    if not self.refuse(parent, top):
        self.attach(parent, self.key(r), top, how, r)


RefForest.do_clash = do_clash
