# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import aliasers, classes, gen
from vt.aliasers import NoKey
from vt.core import Prop, Sub, check, eq, raises, same
from vt.mapmodel import MapDriver, map_ops

FLAGS = ['NodeChildValidate', 'UUIDAware', 'Lifecycle', 'Adopt', 'Attributes',
         'Reference', 'Order', 'AsAttrAccess', 'UnicodeAware', 'Fallback',
         'Events', 'Adopt', 'Order']


def cases(tier):
    n = gen.size(tier, 20, 50)
    ops = map_ops(['dict', 'pairs', 'gen', 'none', 'odict'], fill=1)
    ops = [(w, x) for w, x in ops if x is not ops[-1][1]] + [
        (4, gen.op('hidden', gen.idx)),
        (2, gen.op('unhide', gen.idx)),
        (3, gen.op('foreign', gen.idx)),
        (2, gen.op('missing', gen.idx)),
        (3, gen.op('insert', gen.idx, gen.idx, st.booleans())),
        (2, gen.op('swap', gen.idx, gen.idx)),
        (1, gen.op('ends', gen.idx, st.booleans())),
    ]
    return st.fixed_dictionaries({
        'spec': aliasers.specs(),
        'flags': st.lists(st.sampled_from(FLAGS), max_size=5, unique=True),
        'odict': st.sampled_from([True, True, False]),
        'order': st.booleans(),
        'reads': gen.reads(),
        'keys': st.lists(gen.names(), min_size=2, max_size=8),
        'foreign': st.lists(gen.names(), min_size=1, max_size=4),
        'ops': gen.ops(*ops, min_size=3, max_size=n),
    })


class AliasedDriver(MapDriver):

    def __init__(self, spec, storage_keys, foreign, *args, **kw):
        super(AliasedDriver, self).__init__(*args, **kw)
        self.spec = spec
        self.foreign = []
        for key in foreign + aliasers.keys_of(spec)[1]:
            try:
                aliasers.unalias(spec, key)
            except NoKey:
                self.foreign.append(key)
        # storage keys the aliaser hides
        self.hidable = []
        if spec[0] == 'dict' and spec[2]:
            for key in foreign + storage_keys + aliasers.keys_of(spec)[0]:
                try:
                    aliasers.alias(spec, key)
                except NoKey:
                    self.hidable.append(key)
        self.hidden = {}

    def do_hidden(self, i):
        """Put a child to the storage the aliaser does not list."""
        key = gen.pick(self.hidable, i)
        if key is not None and key not in self.hidden:
            value = self.factory(i)
            self.node.storage[key] = value
            self.hidden[key] = value
            self.ctx.label('hidden-child')

    def do_unhide(self, i):
        key = gen.pick(sorted(self.hidden), i)
        if key is not None:
            del self.node.storage[key]
            del self.hidden[key]

    def do_foreign(self, i):
        """Keys the aliaser cannot translate."""
        key = gen.pick(self.foreign, i)
        if key is None:
            return
        node = self.node
        raises(KeyError, node.__getitem__, key)
        raises(KeyError, node.__setitem__, key, self.factory(i))
        raises(KeyError, node.__delitem__, key)
        raises(KeyError, node.pop, key)
        same(node.get(key), None, 'get() of foreign key')
        check(key not in node, '%r in node', key)
        self.ctx.label('foreign-key')

    def do_missing(self, i):
        key = self.key(i)
        if key in self.model:
            return
        for func in (self.node.__getitem__, self.node.__delitem__,
                     self.node.pop, self.node.detach):
            e = raises(KeyError, func, key)
            eq(e.args, (key,), 'KeyError of missing aliased key')

    # ordering, given names are set

    def orderable(self):
        from node.interfaces import IAdopt, INode, IOrder
        return IOrder.providedBy(self.node) and IAdopt.providedBy(self.node) \
            and all(INode.providedBy(x) for x in self.model.values()) \
            and not self.hidden

    def fresh(self, i):
        from node.interfaces import INode
        key = self.key(i)
        new = self.factory(i)
        if not self.orderable() or key in self.model or key is None:
            return None, None
        if not INode.providedBy(new):
            return None, None
        new.__name__ = key
        return key, new

    def do_insert(self, i, j, before):
        key, new = self.fresh(i)
        if new is None or not self.model:
            return
        ref = list(self.model)[j % len(self.model)]
        if before:
            self.node.insertbefore(new, self.model[ref])
        else:
            self.node.insertafter(new, self.model[ref])
        items = list(self.model.items())
        at = list(self.model).index(ref) + (0 if before else 1)
        items.insert(at, (key, new))
        self.model = dict(items)
        self.mutations += 1
        self.ctx.label('inserted')

    def do_ends(self, i, first):
        key, new = self.fresh(i)
        if new is None:
            return
        if first:
            self.node.insertfirst(new)
            self.model = dict([(key, new)] + list(self.model.items()))
        else:
            self.node.insertlast(new)
            self.model[key] = new
        self.mutations += 1
        self.ctx.label('inserted')

    def do_swap(self, i, j):
        if not self.orderable() or len(self.model) < 2:
            return
        items = list(self.model.items())
        a, b = i % len(items), j % len(items)
        if a == b:
            return
        self.node.swap(items[a][1], items[b][1])
        items[a], items[b] = items[b], items[a]
        self.model = dict(items)
        self.ctx.label('swapped')

    def check(self):
        super(AliasedDriver, self).check()
        want = dict((aliasers.unalias(self.spec, k), v)
                    for k, v in self.model.items())
        want.update(self.hidden)
        storage = self.node.storage
        eq(set(storage), set(want), 'storage keys')
        for key, value in want.items():
            same(storage[key], value, 'storage[%r]' % key)


def run(case, ctx):
    spec = case['spec']
    flags = [x for x in case['flags'] if case['odict'] or x != 'Order']
    if case['order'] and case['odict']:
        flags.extend(['Order', 'Adopt'])
    cls = classes.compose(flags + ['Alias'], 'OdictStorage' if case['odict']
                          else 'DictStorage')
    if spec[0] == 'dict' and not spec[1]:
        # an empty dictionary aliaser is false, which means no aliaser
        return
    node = classes.placed(cls, len(case['keys']) + len(case['ops']),
                          aliaser=aliasers.build(spec))
    candidates = list(case['keys']) + aliasers.keys_of(spec)[1]
    keys, storage_keys = [], []
    for key in candidates:
        try:
            name = aliasers.lawful(spec, key)
        except NoKey:
            continue
        if key in storage_keys or gen.is_ns(name) or gen.is_ns(key):
            continue
        keys.append(name)
        storage_keys.append(key)
    if not keys:
        return
    child = classes.shipped('Node' if 'Reference' in flags else 'BaseNode')
    driver = AliasedDriver(spec, storage_keys,
                           [x for x in case['foreign'] if not gen.is_ns(x)],
                           node, keys, lambda i: child(), case['odict'], ctx)
    ctx.label(spec[0])
    for i, op in enumerate(case['ops']):
        due = gen.due(case, i)
        driver.step(op, not due)
        if due:
            driver.check()
        if op[0] == 'clear' and driver.hidden:
            ctx.label('clear-hidden')
    driver.check()
    from node.interfaces import IAdopt
    if IAdopt.providedBy(node):
        for key, value in driver.model.items():
            eq(value.name, key, 'name of child')
            same(value.parent, node, 'parent of child')
    ctx.hit(driver.mutations >= 2 and any(a != b for a, b in zip(
        keys, storage_keys)))


PROP = Prop(
    'P17', [Sub('aliased', cases, run, 18000)],
    rule='Random aliaser (any kind, also chained) on a random composition; '
         'mapping and ordering histories under aliased keys compared with a '
         'dictionary, storage compared with the unaliased dictionary after '
         'each step; children in the storage the aliaser does not list, keys '
         'the aliaser cannot translate. Non-trivial: two mutations with an '
         'aliaser which changes keys.',
    assumptions=['an empty dictionary aliaser counts as no aliaser',
                 'keys for which alias and unalias are inverse (see P16)'])
