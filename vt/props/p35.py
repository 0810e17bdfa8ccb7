# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, forest, gen
from vt.core import Prop, Sub, eq, raises, same


class Conserving(forest.Forest):

    def created(self, m, k):
        m.cls = type(m.real)
        if m.kind in forest.ATTRS and k % 2:
            for i in range(k % 4):
                value = [m.num, i]
                m.real.attrs['attr%d' % i] = value
                m.attrs['attr%d' % i] = value
            self.ctx.label('attrs')

    def check_attrs(self):
        for m in self.nodes:
            same(type(m.real), m.cls, 'type of %d' % m.num)
            if m.kind in forest.ATTRS:
                eq(list(m.real.attrs.keys()), list(m.attrs),
                   'attributes of %d' % m.num)
                for key, value in m.attrs.items():
                    same(m.real.attrs[key], value, 'attribute value')
            if m.uuid is not None:
                eq(int(m.real.uuid), m.uuid, 'uuid of %d' % m.num)


def cases(kinds):
    def strategy(tier):
        return forest.forest_cases(kinds, gen.anykeys(),
                                   forest.forest_ops(), tier)
    return strategy


def run(overwrite):
    def run(case, ctx):
        f = Conserving(case['kinds'], case['keys'], ctx, overwrite)
        f.create(0, name='root')
        for i, op in enumerate(case['ops']):
            f.step(op)
            if gen.due(case, i):
                f.check_structure()
                f.check_attrs()
        f.check_structure()
        f.check_attrs()
        ctx.hit(f.moves >= 1 and f.puts >= 3)
    return run


# ---------------------------------------------------------------------------
# compositions: two parents exchange children, whatever the children are called

def composed_cases(tier):
    n = gen.idx
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(classes.CANONICAL[:-2]),
                          max_size=8, unique=True),
        'odict': st.booleans(),
        'prefix': st.booleans(),
        'keys': gen.pool(gen.anykeys(), min_size=2),
        'reads': gen.reads(),
        'ops': gen.ops(
            (6, gen.op('add', n, n, n, n)), (6, gen.op('move', n, n, n)),
            (2, gen.op('name', n, n)), (2, gen.op('remove', n, n)),
            (2, gen.op('clear', n)),
            (1, gen.op('missing', n, n)), (2, gen.op('grow', n, n)),
            min_size=3, max_size=gen.size(tier, 16, 40))})


class Exchange(object):

    def __init__(self, case, ctx):
        from node.behaviors.alias import PrefixAliaser
        flags = [x for x in case['flags']
                 if case['odict'] or x != 'Order']
        flags = classes.normalize(flags)
        self.cls = classes.compose(
            flags, 'OdictStorage' if case['odict'] else 'DictStorage')
        self.keys = [gen.dk(x) for x in case['keys']]
        if 'Alias' in flags and case['prefix']:
            aliased = classes.placed(self.cls, len(case['ops']),
                                     aliaser=PrefixAliaser('p-'))
            self.keys = gen.distinct(['p-' + str(x) for x in self.keys])
            self.tops = [aliased, self.cls()]
            ctx.label('prefixed')
        else:
            self.tops = [self.cls(), self.cls()]
        self.flags, self.ctx = flags, ctx
        self.ordered = case['odict']
        self.adopts = 'Adopt' in flags
        self.models = [{}, {}]
        self.inner = {}    # id of child -> (child, keys, values)
        self.out = []
        self.moves = 0

    def key(self, i):
        return gen.pick(self.keys, i)

    def put(self, t, key, child):
        t = t % 2
        model = self.models[t]
        if key in model:
            # overwriting is not judged here
            return False
        self.tops[t][key] = child
        model[key] = child
        return True

    def step(self, op):
        getattr(self, 'do_' + op[0])(*op[1:])
        self.ctx.label(op[0])

    def do_add(self, t, k, name, size):
        if self.out and size % 2:
            child = self.out.pop(size % len(self.out))
            if not self.put(t, self.key(k), child):
                self.out.append(child)
            return
        child = self.cls(name=self.key(name) if size % 3 else None)
        values = {}
        for i in range(size % 4):
            # keys of the parents and others
            key = self.key(i + k) if i % 2 else 'inner%d' % i
            if key not in values:
                values[key] = child[key] = self.cls(name=self.key(i))
        self.inner[id(child)] = (child, values)
        if not self.put(t, self.key(k), child):
            self.out.append(child)

    def do_move(self, t, k, to):
        model = self.models[t % 2]
        if not model:
            return
        key = list(model)[k % len(model)]
        child = model.pop(key)
        same(self.tops[t % 2].detach(key), child, 'result of detach()')
        self.moves += 1
        if not self.put(t + to % 3, self.key(to), child):
            self.out.append(child)

    def do_name(self, k, name):
        """What nodes are called where they are not adopted."""
        inner = list(self.inner.values())
        if inner and not self.adopts:
            inner[k % len(inner)][0].__name__ = self.key(name)

    def do_remove(self, t, k):
        model = self.models[t % 2]
        if model:
            key = list(model)[k % len(model)]
            child = model.pop(key)
            if k % 2:
                same(self.tops[t % 2].pop(key), child, 'result of pop()')
            else:
                del self.tops[t % 2][key]
            self.out.append(child)

    def do_clear(self, t):
        self.tops[t % 2].clear()
        self.out.extend(self.models[t % 2].values())
        self.models[t % 2].clear()

    def do_missing(self, t, k):
        if self.key(k) not in self.models[t % 2]:
            raises(KeyError, self.tops[t % 2].detach, self.key(k))

    def do_grow(self, k, i):
        inner = list(self.inner.values())
        if inner:
            child, values = inner[k % len(inner)]
            key = 'grown%d' % (i % 3)
            if key not in values:
                values[key] = child[key] = self.cls(name=key)

    def check(self):
        for top, model in zip(self.tops, self.models):
            eq(list(top.keys()) if self.ordered else set(top.keys()),
               list(model) if self.ordered else set(model), 'keys')
            eq(len(top), len(model), 'number of children')
            for key, child in model.items():
                same(top[key], child, 'child %r' % (key,))
        for child, values in self.inner.values():
            eq(list(child.keys()) if self.ordered else set(child.keys()),
               list(values) if self.ordered else set(values),
               'keys of a moved node')
            for key, value in values.items():
                same(child[key], value, 'child %r of a moved node' % (key,))


def run_composed(case, ctx):
    world = Exchange(case, ctx)
    for i, op in enumerate(case['ops']):
        world.step(op)
        if gen.due(case, i):
            world.check()
    world.check()
    ctx.hit(world.moves >= 1 and len(world.inner) >= 2)


PROP = Prop(
    'P35', [Sub('plain', cases(forest.PLAIN), run(True), 10000),
            Sub('references', cases(forest.REFS), run(False), 9000),
            Sub('compositions', composed_cases, run_composed, 8000)],
    rule='Histories of growing, moving, removing, clearing on a forest of '
         'up to 60 nodes; children (identity, keys, order), types, uuids '
         'and attributes of every node ever created, contained or removed, '
         'compared with the model after each step. Children of two nodes of '
         'random compositions move between them, whatever they are called. '
         'Non-trivial: at least '
         'one move and three additions.',
    assumptions=['a node is added only where it is not contained elsewhere '
                 '(move means detach, then add)'])
