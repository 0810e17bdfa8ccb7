# -*- coding: utf-8 -*-
import copy
import pickle
import threading
import uuid

from hypothesis import strategies as st

from node.locking import TreeLock

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, same

TYPES = classes.TREE_TYPES + ['Node', 'AttributedNode', 'Cached', 'Loose']
# odict itself supports no older protocols
COPIES = ['deepcopy', 'copy.deepcopy'] + ['pickle%d' % i for i in range(
    2, pickle.HIGHEST_PROTOCOL + 1)]


def cls_of(name):
    cls = _cls_of(name)
    if name in ('Cached', 'Loose'):
        # make it importable
        setattr(classes, name, cls)
    return cls


def _cls_of(name):
    if name == 'Cached':
        return classes.build('Cached', (
            'NodeChildValidate', 'Nodespaces', 'Lifecycle', 'Adopt',
            'Attributes', 'Cache', 'Invalidate', 'DefaultInit', 'Nodify',
            'OdictStorage'))
    if name == 'Loose':
        # allows any values
        return classes.build('Loose', (
            'Adopt', 'Reference', 'Order', 'DefaultInit', 'Nodify',
            'OdictStorage'))
    return classes.shipped(name)


REFS = ('Node', 'AttributedNode', 'MyNode', 'Loose')


def values():
    return gen.one_of(
        gen.json_values(4),
        st.sampled_from([{'s': 'unset'}, {'s': 'uuid'}, {'s': 'class'},
                         {'s': 'tuple'}, {'s': 'func'}]))


def dv(value):
    """Decode an attribute value."""
    if isinstance(value, dict) and list(value) == ['s'] \
            and isinstance(value['s'], str):
        from node.utils import UNSET
        from node.base import BaseNode
        return {'unset': UNSET, 'uuid': uuid.UUID(int=5), 'class': BaseNode,
                'tuple': (1, [2], UNSET), 'func': dv}.get(value['s'],
                                                         value['s'])
    return value


N = st.integers(0, 40)


def change_ops(types):
    return [
        (5, gen.op('add', N, gen.idx, st.sampled_from(types))),
        (2, gen.op('del', N)),
        (1, gen.op('clear', N)),
        (3, gen.op('attr', N, gen.idx, values())),
        (2, gen.op('mutate', N)),
        (1, gen.op('delattr', N)),
        (2, gen.op('space', N, st.integers(0, 3), st.sampled_from(types))),
        (1, gen.op('swap', N, gen.idx, gen.idx)),
        (2, gen.op('insert', N, gen.idx, gen.idx)),
        (1, gen.op('uuid', N, st.integers(1, 2**64))),
        (1, gen.op('rename', st.sampled_from(['a', 'root2', None]))),
        (1, gen.op('read', N)),
        (1, gen.op('lock', N, st.booleans())),
        (2, gen.op('value', N, gen.idx, values())),
    ]


def cases(tier):
    n = gen.size(tier, 12, 30)

    def build(types, how):
        return st.fixed_dictionaries({
            'root': st.sampled_from(types),
            'keys': gen.pool(gen.anykeys(ns=False)),
            'before': gen.ops(*change_ops(types), max_size=n),
            'how': st.lists(st.sampled_from(how), min_size=1, max_size=2),
            'of': st.lists(gen.one_of([st.just(0), N]), min_size=2,
                           max_size=2),
            'after': st.lists(st.tuples(st.integers(0, 2), gen.one_of(
                [x[1] for x in change_ops(types)])).map(list), max_size=n),
        })
    return build(TYPES, COPIES)


def spaces(node):
    if not hasattr(node, 'nodespaces'):
        return {}
    return dict((k, v) for k, v in node.nodespaces.items()
                if k != '__children__')


def walk(node, inner=True):
    from node.interfaces import INode
    res = [node]
    for child in node.values():
        if INode.providedBy(child):
            res.extend(walk(child, inner))
    if inner:
        for child in spaces(node).values():
            res.extend(walk(child, inner))
    return res


def snap(node):
    """Everything observable of a tree, without object identities."""
    from node.interfaces import INode
    children = []
    for key, value in node.items():
        if INode.providedBy(value):
            children.append((type(key), key, snap(value)))
        else:
            children.append((type(key), key, frozen(value)))
    return (type(node), node.name, children,
            [(k, snap(v)) for k, v in spaces(node).items()],
            getattr(node, 'uuid', None))


def frozen(value):
    if isinstance(value, (list, tuple)):
        return (type(value), [frozen(x) for x in value])
    if isinstance(value, dict):
        return (type(value), [(k, frozen(v)) for k, v in value.items()])
    return (type(value), repr(value) if isinstance(value, float) else value)


def mutables(node):
    """Ids of all mutable non-node values."""
    from node.interfaces import INode
    res = {}

    def collect(value):
        if isinstance(value, (list, dict)):
            res[id(value)] = value
            for x in (value.values() if isinstance(value, dict) else value):
                collect(x)
        elif isinstance(value, tuple):
            for x in value:
                collect(x)
    for x in walk(node):
        for value in x.values():
            if not INode.providedBy(value):
                collect(value)
    return res


def located(node):
    """Parents, roots and uuid lookups of a tree are right."""
    from node.interfaces import INode
    for n in walk(node, False):
        for key, child in n.items():
            if INode.providedBy(child):
                same(child.parent, n, 'parent of child %r' % (key,))
                eq(child.name, key, 'name of child')
        for key, space in spaces(n).items():
            same(space.parent, n, 'parent of nodespace %r' % (key,))
            same(n[key], space, 'nodespace as item')
        if hasattr(n, 'nodespaces'):
            same(n.nodespaces['__children__'], n, '__children__')
        if hasattr(n, 'attrs'):
            same(n.nodespaces['__attrs__'], n.attrs, '__attrs__')


def lookups(node, others=()):
    """Uuid lookups in uniformly referencing trees."""
    def refs(n):
        res = [n]
        for child in n.values():
            if is_ref(child):
                res.extend(refs(child))
        return res
    if not is_ref(node):
        for child in node.values():
            from node.interfaces import INode
            if INode.providedBy(child):
                lookups(child, others)
        return
    found = refs(node)
    for n in found:
        for other in found:
            same(n.node(other.uuid), other, 'node() by uuid')
            same(n.index[other.uuid], other, 'index by uuid')
        for u in others:
            if u not in [x.uuid for x in found]:
                same(n.node(u), None, 'node() by unknown uuid')


def is_ref(node):
    from node.interfaces import IReference
    return IReference.providedBy(node)


class Tree(object):

    def __init__(self, root, keys):
        self.root = root
        self.keys = [gen.dk(k) for k in keys]
        self.held = []
        self.locked = False

    def pick(self, i):
        return gen.pick(walk(self.root, False), i)

    def new(self, parent, name):
        # referencing nodes hold referencing ones only
        if is_ref(parent) and name not in REFS:
            name = REFS[len(name) % 4]
        if name == 'MyNode' and is_ref(parent):
            name = 'Node'
        return cls_of(name)()

    def step(self, op):
        return getattr(self, 'do_' + op[0])(*op[1:])

    def do_add(self, n, k, name):
        parent = self.pick(n)
        key = gen.pick(self.keys, k)
        if key not in parent and len(parent.path) < 6:
            parent[key] = self.new(parent, name)

    def do_value(self, n, k, value):
        parent = self.pick(n)
        key = gen.pick(self.keys, k)
        if key not in parent and type(parent).__name__ == 'Loose':
            parent[key] = dv(value)

    def do_del(self, n):
        node = self.pick(n)
        if node is not self.root:
            parent = node.parent
            if n % 2:
                del parent[node.name]
            else:
                parent.detach(node.name)

    def do_clear(self, n):
        self.pick(n).clear()

    def attributed(self, n):
        return gen.pick([x for x in walk(self.root, False)
                         if hasattr(x, 'attrs')], n)

    def do_attr(self, n, k, value):
        node = self.attributed(n)
        if node is not None:
            node.attrs[gen.pick(self.keys, k)] = dv(value)

    def do_mutate(self, n):
        found = list(mutables(self.root).values())
        if found:
            value = found[n % len(found)]
            if isinstance(value, list):
                value.append(n)
            else:
                value['mutated%d' % n] = n

    def do_delattr(self, n):
        node = self.attributed(n)
        if node is not None and len(node.attrs):
            del node.attrs[list(node.attrs)[n % len(node.attrs)]]

    def do_space(self, n, k, name):
        nodes = [x for x in walk(self.root, False) if hasattr(x, 'nodespaces')]
        node = gen.pick(nodes, n)
        if node is not None:
            key = '__space%d__' % k
            if key not in node.nodespaces:
                node[key] = cls_of(name)()
            else:
                space = node[key]
                child = 'c%d' % len(space)
                if child not in space:
                    space[child] = self.new(space, name)

    def ordered(self, n):
        from node.interfaces import IOrder, INode
        nodes = [x for x in walk(self.root, False)
                 if IOrder.providedBy(x) and len(x) > 1
                 and all(INode.providedBy(y) for y in x.values())]
        return gen.pick(nodes, n)

    def do_swap(self, n, i, j):
        node = self.ordered(n)
        if node is not None:
            a = node[gen.pick(list(node), i)]
            b = node[gen.pick(list(node), j)]
            if a is not b:
                node.swap(a, b)

    def do_insert(self, n, i, k):
        node = self.ordered(n)
        key = gen.pick(self.keys, k)
        if node is not None and key is not None and key not in node:
            new = self.new(node, 'AttributedNode')
            new.__name__ = key
            node.insertbefore(new, node[gen.pick(list(node), i)])

    def do_uuid(self, n, value):
        nodes = [x for x in walk(self.root, False) if is_ref(x)]
        node = gen.pick(nodes, n)
        if node is not None and node.node(uuid.UUID(int=value)) is None:
            node.uuid = uuid.UUID(int=value)

    def do_rename(self, name):
        self.root.__name__ = name

    def do_lock(self, n, held):
        """Locks are no part of what is copied."""
        self.locked = True
        if self.held:
            self.held.pop().release()
        lock = TreeLock(self.pick(n))
        lock.acquire()
        if held:
            self.held.append(lock)
        else:
            lock.release()

    def do_read(self, n):
        node = self.pick(n)
        node.treerepr()
        if hasattr(node, 'attrs'):
            len(node.attrs)


def duplicate(node, how):
    if how == 'deepcopy':
        return node.deepcopy()
    if how == 'copy.deepcopy':
        return copy.deepcopy(node)
    return pickle.loads(pickle.dumps(node, int(how[6:])))


def own_locks(trees):
    """Each tree has a lock of its own."""
    for tree in trees:
        for lock in tree.held:
            lock.release()

    def enter(node):
        with TreeLock(node):
            pass
    for tree in trees:
        with TreeLock(tree.root):
            for other in trees:
                if other is not tree:
                    thread = threading.Thread(target=enter,
                                              args=(other.root,))
                    thread.daemon = True
                    thread.start()
                    thread.join(60)
                    check(not thread.is_alive(),
                          'the lock of a copy is the one of the original')


def run(case, ctx):
    first = Tree(cls_of(case['root'])(name='root'), case['keys'])
    for op in case['before']:
        first.step(op)
    trees = [first]
    for how, of in zip(case['how'], case['of']):
        source = trees[-1]
        inner = walk(source.root)
        of %= len(inner)
        before = original = snap(source.root)
        values = [x for n in walk(source.root) for x in n.values()]
        root = node = duplicate(inner[of], how)
        same(type(node), type(inner[of]), 'type after ' + how)
        if of and node.parent is not None:
            # parents are taken along
            root = node.root
            same(gen.pick(walk(root), of), node, 'place in the copied tree')
            ctx.label('of contained')
        elif of:
            before = snap(inner[of])
        after = [x for n in walk(source.root) for x in n.values()]
        eq(snap(source.root), original, 'original after ' + how)
        check(len(after) == len(values)
              and all(a is b for a, b in zip(values, after)),
              'original has the same objects after %s', how)
        eq(snap(root), before, 'tree after ' + how)
        located(root)
        lookups(root)
        nodes = set(id(x) for x in walk(source.root))
        check(not any(id(x) in nodes for x in walk(root)),
              '%s shares a node with the original', how)
        check(not set(mutables(source.root)) & set(mutables(root)),
              '%s shares a value with the original', how)
        same(root.parent, None, 'parent of the copied root')
        trees.append(Tree(root, case['keys']))
        ctx.label(how)
        if len(walk(root)) > 3:
            ctx.label('big')
    changed = 0
    for i, op in case['after']:
        tree = trees[i % len(trees)]
        others = [x for x in trees if x is not tree]
        state = [snap(x.root) for x in others]
        mine = snap(tree.root)
        tree.step(op)
        for other, want in zip(others, state):
            eq(snap(other.root), want, 'other tree after ' + op[0])
        if snap(tree.root) != mine:
            changed += 1
    if any(tree.locked for tree in trees):
        ctx.label('locked')
        own_locks(trees)
    found = [x.uuid for t in trees for x in walk(t.root, False) if is_ref(x)]
    for tree in trees:
        located(tree.root)
        lookups(tree.root, found)
    ctx.hit(changed >= 1 and len(walk(trees[1].root)) >= 3)


# ---------------------------------------------------------------------------
# shallow copies

def shallow_cases(tier):
    return st.fixed_dictionaries({
        'root': st.sampled_from(TYPES),
        'keys': gen.pool(gen.anykeys()),
        'before': gen.ops(*change_ops(TYPES), max_size=gen.size(tier, 10, 25)),
        'which': N,
        'how': st.sampled_from(['copy', 'copy.copy']),
    })


def run_shallow(case, ctx):
    tree = Tree(cls_of(case['root'])(name='root'), case['keys'])
    for op in case['before']:
        tree.step(op)
    node = tree.pick(case['which'])
    before = snap(tree.root)
    objects = [x for n in walk(tree.root) for x in n.values()]
    new = node.copy() if case['how'] == 'copy' else copy.copy(node)
    eq(snap(tree.root), before, 'tree after shallow copy')
    after = [x for n in walk(tree.root) for x in n.values()]
    check(all(a is b for a, b in zip(objects, after)),
          'objects of the tree after shallow copy')
    located(tree.root)
    lookups(tree.root)
    check(new is not node, 'copy() gave the node itself')
    same(type(new), type(node), 'type of the copy')
    eq(new.name, node.name, 'name of the copy')
    same(new.parent, node.parent, 'parent of the copy')
    eq(list(new.keys()), list(node.keys()), 'keys of the copy')
    check(all(a is b for a, b in zip(new.values(), node.values())),
          'children of the copy are the same')
    ctx.hit(len(node) > 0)
    ctx.label('nested' if node.parent is not None else 'top')


# ---------------------------------------------------------------------------
# known findings

def probe_shallow():
    from node.base import OrderedNode
    node = OrderedNode(name='n')
    node['a'] = OrderedNode()
    new = node.copy()
    new['b'] = OrderedNode()
    return list(node) == ['a', 'b']


PROP = Prop(
    'P10', [Sub('deep', cases, run, 14400),
            Sub('shallow', shallow_cases, run_shallow, 7200)],
    rule='Trees of shipped and composed node types grown by random '
         'histories (children under arbitrary keys, nested attribute '
         'values, nodespaces, uuids, ordered insertion), copied by deepcopy '
         'or pickle protocols 2 to 5, also copies of contained '
         'nodes and of copies; then random '
         'changes on either side with a full comparison of all other trees '
         'after each. Non-trivial: at least three nodes and one effective '
         'change (deep), a node with children (shallow).',
    probes={'shallow-shared': probe_shallow},
    assumptions=['the copy of a contained node takes copies of its parents '
                 'along or has no parent',
                 'pickling covers importable classes and protocols '
                 'from 2 (odict supports no older ones)'])
