# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same
from vt.mapmodel import MapDriver, map_ops

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle', 'Adopt',
         'Attributes', 'Cache', 'Cache', 'Reference', 'Order', 'AsAttrAccess',
         'UnicodeAware', 'Alias', 'Fallback', 'Events']
UNKNOWN = ['unknown', 'zz', '~']


def cases(tier):
    n = gen.size(tier, 25, 60)
    return st.fixed_dictionaries({
        'how': st.sampled_from(['Invalidate', 'VolatileStorageInvalidate']),
        'flags': st.lists(st.sampled_from(FLAGS), max_size=5, unique=True),
        'odict': st.booleans(),
        'nonnodes': st.booleans(),
        'prefix': st.booleans(),
        'reads': gen.reads(),
        'keys': gen.pool(gen.anykeys()),
        'ops': gen.ops(*map_ops(fill=4) + [
            (16, gen.op('inval', gen.idx, st.booleans())),
            (3, gen.op('unknown', gen.idx)),
            (2, gen.op('invalall', st.booleans()))],
            min_size=10, max_size=n),
    })


class Driver(MapDriver):
    invalidated = 0

    def do_inval(self, k, kw):
        key = self.key(k)
        if key is None:
            return
        if key not in self.model:
            e = raises(KeyError, self.node.invalidate, key)
            eq(e.args, (key,), 'KeyError of invalidate')
            return
        others = len(self.model) - 1
        if kw:
            self.node.invalidate(key=key)
        else:
            self.node.invalidate(key)
        self.model_del(key)
        self.invalidated += others > 0

    def do_unknown(self, i):
        key = self.keymap(UNKNOWN[i % len(UNKNOWN)])
        if key not in self.model:
            e = raises(KeyError, self.node.invalidate, key)
            eq(e.args, (key,), 'KeyError of invalidate')

    def do_invalall(self, kw):
        if kw:
            self.node.invalidate(key=None)
        else:
            self.node.invalidate()
        for key in list(self.model):
            self.model_del(key)


def run(case, ctx):
    flags = list(case['flags']) + [case['how']]
    if not case['odict'] and 'Order' in flags:
        flags.remove('Order')
    if 'Reference' in flags and case['how'] != 'Invalidate':
        # volatile storage does not know about the index
        flags.remove('Reference')
    attrs = [('allow_non_node_childs', True)] if case['nonnodes'] else []
    cls = classes.compose(flags, 'OdictStorage' if case['odict']
                          else 'DictStorage', attrs)
    node = cls(name='node')
    keys = case['keys']
    keymap = None
    if 'Alias' in flags and case['prefix']:
        from node.behaviors.alias import PrefixAliaser
        node = classes.placed(cls, len(case['ops']),
                              aliaser=PrefixAliaser('p-'))
        keys = gen.distinct([str(gen.dk(key)) for key in keys])
        keymap = 'p-'.__add__
        ctx.label('aliased')
    raw = case['nonnodes'] or 'NodeChildValidate' not in flags
    child = classes.shipped('Node' if 'Reference' in flags else 'BaseNode')
    values = [None, 0, '', 'text', [1], False, dict]

    def factory(i):
        if raw and i % 3 == 1:
            return values[i // 3 % len(values)]
        return child()
    driver = Driver(node, keys, factory, case['odict'], ctx, reuse=False,
                    keymap=keymap)
    for i, op in enumerate(case['ops']):
        due = gen.due(case, i)
        driver.step(op, not due)
        if due:
            driver.check()
    driver.check()
    ctx.label(case['how'], *flags)
    ctx.hit(driver.invalidated > 0)


# ---------------------------------------------------------------------------
# lazily created children

def lazy_cases(tier):
    k = gen.idx
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(
            ['NodeChildValidate', 'Nodespaces', 'Adopt', 'Attributes',
             'Cache', 'Cache', 'AsAttrAccess', 'UnicodeAware', 'Events']),
            max_size=4, unique=True),
        'odict': st.booleans(),
        'keys': gen.pool(gen.names(), max_size=4),
        'ops': gen.ops(
            (6, gen.op('access', k)), (2, gen.op('set', k)),
            (2, gen.op('del', k)), (6, gen.op('inval', k)),
            (2, gen.op('invalall')), (2, gen.op('unknown', k)),
            (1, gen.op('values')), min_size=10,
            max_size=gen.size(tier, 25, 60)),
    })


def run_lazy(case, ctx):
    import node.behaviors as b
    from odict import odict
    from plumber import plumbing
    names = classes.normalize(case['flags'] + ['VolatileStorageInvalidate'])
    names = names[:-2] + ['ChildFactory'] + names[-2:] + [
        'OdictStorage' if case['odict'] else 'DictStorage']
    base = classes.build('Lazy', tuple(names))
    made = []
    child = classes.shipped('BaseNode')

    def factory():
        made.append(child())
        return made[-1]
    cls = type('LazySub', (base,), {
        'factories': odict((key, factory) for key in case['keys'])})
    node = cls(name='lazy')
    keys = case['keys']
    loaded = {}
    done = set()

    def verify():
        eq(list(node.keys()), keys, 'listed keys')
        eq(list(node), keys, 'iter()')
        eq(len(node), len(keys), 'len()')
        check(set(node.storage) == set(loaded),
              'children in memory: %r, want %r', sorted(node.storage),
              sorted(loaded))
        for key, value in loaded.items():
            same(node.storage[key], value, 'child in memory')

    def access(key):
        before = len(made)
        got = node[key]
        if key in loaded:
            same(got, loaded[key], 'node[%r]' % key)
            eq(len(made), before, 'number of created children')
        else:
            eq(len(made), before + 1, 'number of created children')
            same(got, made[-1], 'node[%r]' % key)
            loaded[key] = got
    for op in case['ops']:
        key = keys[op[1] % len(keys)] if len(op) > 1 else None
        before = len(made)
        if op[0] == 'access':
            access(key)
            if key in done:
                done.add(0)
        elif op[0] == 'set':
            loaded[key] = node[key] = child()
        elif op[0] == 'del':
            if key in loaded:
                del node[key]
                del loaded[key]
        elif op[0] == 'inval':
            node.invalidate(key)
            if key in loaded:
                del loaded[key]
                done.add(key)
            else:
                ctx.label('not-loaded')
        elif op[0] == 'invalall':
            node.invalidate()
            done.update(loaded)
            loaded.clear()
        elif op[0] == 'unknown':
            key = UNKNOWN[op[1] % len(UNKNOWN)]
            if key not in keys:
                e = raises(KeyError, node.invalidate, key)
                eq(e.args, (key,), 'KeyError of invalidate')
        elif op[0] == 'values':
            for key in keys:
                access(key)
            check(all(a is loaded[k] for k, a in zip(keys, node.values())),
                  'values()')
        if op[0] not in ('access', 'values'):
            eq(len(made), before, 'number of created children after ' + op[0])
        verify()
    for key in keys:
        access(key)
    verify()
    ctx.hit(0 in done)


PROP = Prop(
    'P19', [Sub('stored', cases, run, 9600),
            Sub('lazy', lazy_cases, run_lazy, 6400)],
    rule='Mapping histories with invalidations of known, unknown and all '
         'keys on random compositions with Invalidate or '
         'VolatileStorageInvalidate (optionally cached, aliased, non-node '
         'values), and on child factories with volatile storage '
         'invalidation, compared with a model after each step. Non-trivial: '
         'one of several children was invalidated; an invalidated child was '
         'created again.',
    assumptions=['VolatileStorageInvalidate is not combined with Reference '
                 '(invalidation bypasses the index by design)'])
