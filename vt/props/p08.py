# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import forest, gen
from vt.core import Prop, Sub, check, raises, same


N = gen.st.integers(0, 30)
DEPTH = gen.st.integers(0, 3)
HOW = gen.st.sampled_from(forest.PUT)


def cases(tier):
    return forest.forest_cases(forest.REFS, gen.anykeys(),
                               forest.ref_ops() + [
                                   (9, gen.op('clash', N, N, N, DEPTH, N,
                                              gen.idx, HOW, N))],
                               tier, quick=16, thorough=40)


def real_nodes(node):
    res = [node]
    for child in node.values():
        res.extend(real_nodes(child))
    return res


def run(case, ctx):
    f = forest.RefForest(case['kinds'], case['keys'], ctx, False)
    f.max_nodes = 24
    f.create(0, name='root')
    for i, op in enumerate(case['ops']):
        f.step(op)
        if not gen.due(case, i) and i + 1 < len(case['ops']):
            continue
        for top in f.roots():
            uuids = [int(x.uuid) for x in real_nodes(top.real)]
            check(len(uuids) == len(set(uuids)),
                  'tree %d has nodes with the same uuid', top.num)
        f.check_uuids()
    ctx.hit(f.rejections >= 1)


# ---------------------------------------------------------------------------
# large trees

def large_cases(tier):
    tree = st.fixed_dictionaries({
        'kind': st.sampled_from(['Node', 'AttributedNode', 'OrderedRef',
                                 'DictRef', 'EventRef']),
        # parents by distance: 1 gives a chain, large ones wide trees
        'shape': st.lists(st.one_of(st.just(1), st.integers(1, 40)),
                          min_size=1, max_size=6),
        'size': st.one_of(st.integers(1, 20), st.integers(60, 140),
                          st.integers(250, 300)),
    })
    return st.fixed_dictionaries({
        'trees': st.lists(tree, min_size=2, max_size=2),
        'at': st.integers(0, 300),
        'clashes': st.lists(st.lists(st.integers(0, 300), min_size=2,
                                     max_size=2), max_size=3),
        'how': st.sampled_from(['set', 'setdefault', 'update', 'detach']),
    })


def make_tree(spec):
    cls = forest.node_class(spec['kind'])
    nodes = [cls(name='root')]
    depths = [0]
    shape = spec['shape']
    for i in range(1, spec['size']):
        up = max(0, i - shape[i % len(shape)])
        if depths[up] > 40:
            up = 0
        child = cls()
        nodes[up]['k%d' % i] = child
        nodes.append(child)
        depths.append(depths[up] + 1)
    return nodes, max(depths)


def indexed(nodes, others, what):
    for node in (nodes[0], nodes[-1], nodes[len(nodes) // 2]):
        for x in nodes:
            same(node.node(x.uuid), x, 'node() in %s' % what)
        for x in others:
            same(node.node(x.uuid), None, 'node() of the other tree in '
                 + what)


def run_large(case, ctx):
    (nodes, _), (more, _) = map(make_tree, case['trees'])
    # uuids are equal in both trees
    pairs = {}
    for i, j in case['clashes']:
        a, b = gen.pick(nodes, i), gen.pick(more, j)
        if all(a is not x and b is not y for x, y in pairs.values()):
            pairs[len(pairs)] = a, b
    old = [b.uuid for a, b in pairs.values()]
    for a, b in pairs.values():
        b.uuid = a.uuid
    parent = gen.pick(nodes, case['at'])
    top = more[0]

    def add():
        if case['how'] == 'setdefault':
            parent.setdefault('added', top)
        elif case['how'] == 'update':
            parent.update(added=top)
        else:
            parent['added'] = top
    if pairs:
        raises((ValueError, KeyError), add)
        check('added' not in parent, 'child is there after refusal')
        same(top.parent, None, 'parent of refused tree')
        taken = set(a.uuid for a, b in pairs.values())
        indexed(nodes, [x for x in more if x.uuid not in taken], 'first')
        indexed(more, [x for x in nodes if x.uuid not in taken], 'second')
        for (a, b), uid in zip(pairs.values(), old):
            b.uuid = uid
        ctx.label('refused')
        ctx.hit(len(more) > 60 or len(nodes) > 60)
    add()
    indexed(nodes + more, [], 'both')
    ctx.label('added')
    # the same holds when a large subtree moves
    if case['how'] == 'detach':
        parent.detach('added')
    else:
        del parent['added']
    indexed(nodes, more, 'first after removal')
    indexed(more, nodes, 'second after removal')


PROP = Prop(
    'P08', [Sub('unique', cases, run, 19200),
            Sub('large', large_cases, run_large, 900)],
    rule='Histories in which trees with overlapping uuids are built '
         '(explicit, nil and copied uuids) and added to each other in 9 '
         'ways. After each refusal structure, locations, uuids and index of '
         'all trees are compared with the model; after each step uuids of '
         'all trees are distinct. Two trees of up to 300 nodes with up to '
         'three uuids in common are added. Non-trivial: at least one '
         'refusal, of a large tree in the latter case.',
    assumptions=['assignments to an occupied key are excluded (known finding '
                 'of P07)'])
