# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, forest, gen
from vt.core import Prop, Sub, eq, same


def cases(tier):
    return forest.forest_cases(forest.REFS, gen.anykeys(),
                               forest.ref_ops(), tier, quick=14, thorough=40)


def run(case, ctx):
    f = forest.RefForest(case['kinds'], case['keys'], ctx, False)
    f.max_nodes = 28
    f.create(0, name='root')
    for i, op in enumerate(case['ops']):
        f.step(op)
        if gen.due(case, i):
            f.check_index()
    f.check_index()
    ctx.hit(f.puts >= 3 and f.removals >= 1)


# ---------------------------------------------------------------------------
# values which are no nodes between the children

VALUES = [None, 0, '', 'text', 'node', 'class', 'type', [], {'a': 1}]


def value_of(value):
    if value == 'class':
        return classes.shipped('Node')
    if value == 'type':
        return dict
    return value


def mixed_cases(tier):
    n = st.integers(0, 30)
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(['Loose', 'Free', 'Dict']),
                          min_size=1, max_size=2),
        'reads': gen.reads(),
        'ops': gen.ops(
            (6, gen.op('grow', n, n)),
            (6, gen.op('value', n, st.integers(0, len(VALUES) - 1))),
            (1, gen.op('new', n)),
            (3, gen.op('put', n, n)),
            (4, gen.op('move', n, n)),
            (2, gen.op('take', n, st.sampled_from(['del', 'detach', 'pop']))),
            (2, gen.op('forget', n, st.sampled_from(['del', 'pop']))),
            (1, gen.op('clear', n)),
            min_size=12, max_size=gen.size(tier, 30, 50))})


class Mixed(object):
    """Trees with values between the nodes."""

    def __init__(self, kinds):
        self.kinds = kinds
        self.nodes = []
        self.children = {}
        self.up = {}
        self.seen = {}
        self.count = 0
        self.puts = 0
        self.do_new(0)

    def make(self, k):
        kind = self.kinds[k % len(self.kinds)]
        if kind == 'Free':
            base = classes.shipped('Node')
            cls = type('Free', (base,), {'allow_non_node_childs': True})
        elif kind == 'Dict':
            cls = classes.build('Dict', ('Adopt', 'Reference', 'DefaultInit',
                                         'Nodify', 'DictStorage'))
        else:
            cls = classes.build('Loose', ('Adopt', 'Reference', 'Order',
                                          'DefaultInit', 'Nodify',
                                          'OdictStorage'))
        node = cls(name='root')
        self.nodes.append(node)
        self.children[id(node)] = {}
        self.seen[id(node)] = node.uuid
        return node

    def key(self):
        self.count += 1
        return 'k%d' % self.count

    def tree(self, node):
        res = [node]
        for child in self.children[id(node)].values():
            if id(child) in self.children:
                res.extend(self.tree(child))
        return res

    def top(self, node):
        while id(node) in self.up:
            node = self.up[id(node)][0]
        return node

    def add(self, parent, child):
        key = self.key()
        parent[key] = child
        self.children[id(parent)][key] = child
        if id(child) in self.children:
            self.up[id(child)] = (parent, key)

    def do_new(self, k):
        if len(self.nodes) < 20:
            self.make(k)

    def do_grow(self, i, k):
        parent = gen.pick(self.nodes, i)
        if len(self.nodes) < 20:
            self.add(parent, self.make(k))

    def do_value(self, i, v):
        self.add(gen.pick(self.nodes, i), value_of(VALUES[v]))

    def do_put(self, i, j):
        tops = [x for x in self.nodes if id(x) not in self.up]
        parent, child = gen.pick(self.nodes, i), gen.pick(tops, j)
        # a removed node keeps its former parent (known finding of P04)
        if self.top(parent) is not child and not any(
                x is child for x in self.located(parent)):
            self.add(parent, child)
            self.puts += len(self.tree(child)) > 1

    def do_move(self, i, j):
        inner = [x for x in self.nodes if id(x) in self.up]
        child = gen.pick(inner, j)
        if child is None:
            return
        inside = self.tree(child)
        targets = [x for x in self.nodes
                   if not any(x is y for y in inside)
                   and not any(x is child for x in self.located(x))]
        parent = gen.pick(targets, i)
        if parent is None:
            return
        old, key = self.up.pop(id(child))
        del self.children[id(old)][key]
        same(old.detach(key), child, 'detach')
        self.add(parent, child)
        self.puts += len(inside) > 1

    def located(self, node):
        res = []
        while node is not None:
            res.append(node)
            node = node.parent
        return res

    def do_take(self, i, how):
        inner = [x for x in self.nodes if id(x) in self.up]
        child = gen.pick(inner, i)
        if child is not None:
            parent, key = self.up.pop(id(child))
            del self.children[id(parent)][key]
            if how == 'del':
                del parent[key]
            else:
                same(getattr(parent, how)(key), child, how)

    def do_forget(self, i, how):
        for node in self.nodes[i % len(self.nodes):]:
            children = self.children[id(node)]
            for key, value in children.items():
                if id(value) not in self.children:
                    if how == 'del':
                        del node[key]
                    else:
                        same(node.pop(key), value, how)
                    del children[key]
                    return

    def do_clear(self, i):
        node = gen.pick(self.nodes, i)
        node.clear()
        for child in self.children[id(node)].values():
            self.up.pop(id(child), None)
        self.children[id(node)] = {}

    def check(self):
        for node in self.nodes:
            got, want = dict(node.items()), self.children[id(node)]
            eq(set(got), set(want), 'keys')
            for key in want:
                same(got[key], want[key], 'child')
            members = set(id(x) for x in self.tree(self.top(node)))
            for other in self.nodes:
                found = other if id(other) in members else None
                uid = self.seen[id(other)]
                same(node.node(uid), found, 'node() from a node in a tree '
                     'with values')
                same(node.index.get(uid), found, 'index.get()')
                same(uid in node.index, found is not None, 'uuid in index')


def run_mixed(case, ctx):
    m = Mixed(case['kinds'])
    for i, op in enumerate(case['ops']):
        getattr(m, 'do_' + op[0])(*op[1:])
        if gen.due(case, i):
            m.check()
    m.check()
    ctx.hit(m.puts >= 1 and any(
        len(set(id(x) in m.children for x in c.values())) == 2
        for c in m.children.values()))


def probe_overwrite():
    """A replaced child stays in the index."""
    from node.base import Node
    root = Node(name='root')
    old = root['a'] = Node()
    root['a'] = Node()
    return root.node(old.uuid) is old


PROP = Prop(
    'P07', [Sub('index', cases, run, 10400),
            Sub('values', mixed_cases, run_mixed, 6400)],
    rule='Histories of growing, moving, removing, clearing, copying and '
         're-uuiding on forests of up to 28 referencing nodes of 5 types; '
         'after each or only some steps every uuid ever used is looked up from every node '
         'of every tree (contained and removed ones). Non-trivial: at least '
         'three additions and one removal; for trees with values which are '
         'no nodes between the children: a moved subtree and a node having '
         'both.',
    probes={'overwrite': probe_overwrite},
    assumptions=['a node is added only where it is not contained elsewhere',
                 'assignments to an occupied key are excluded (known '
                 'finding)'])
