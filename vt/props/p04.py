# -*- coding: utf-8 -*-
from vt import forest, gen
from vt.core import Prop, Sub


def cases(kinds):
    def strategy(tier):
        return forest.forest_cases(kinds, gen.anykeys(),
                                   forest.forest_ops(), tier)
    return strategy


def run(overwrite):
    def run(case, ctx):
        f = forest.Forest(case['kinds'], case['keys'], ctx, overwrite)
        f.create(0, name='root')
        for i, op in enumerate(case['ops']):
            f.step(op)
            if gen.due(case, i):
                f.check_location()
        f.check_location()
        ctx.hit(f.puts >= 3 and any(m.depth() >= 2 for m in f.nodes))
    return run


def probe_ghost():
    """A removed node keeps its former parent."""
    from node.base import BaseNode
    from node.utils import LocationIterator
    a = BaseNode(name='a')
    b = a['b'] = BaseNode()
    a.detach('b')
    b['a'] = a
    for i, x in enumerate(LocationIterator(a)):
        if i > 10:
            return True
    return False


PROP = Prop(
    'P04', [Sub('plain', cases(forest.PLAIN), run(True), 9000),
            Sub('references', cases(forest.REFS), run(False), 6500)],
    rule='Histories of growing, moving, removing, clearing on a forest of '
         'up to 60 nodes of up to 3 node types, nodes added in 9 ways; '
         'location of every contained node compared with the model after '
         'each or only some steps. Non-trivial: at least three additions and a node at '
         'depth two.',
    probes={'ghost-parent': probe_ghost},
    assumptions=['a node is added only where it is not contained elsewhere '
                 '(move means detach, then add)',
                 'the location of removed nodes is not specified'])
