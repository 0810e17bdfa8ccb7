# -*- coding: utf-8 -*-
import functools
import uuid

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same

KINDS = ['aware', 'aware', 'keep', 'own', 'plain', 'attr', 'ref', 'derived']
# first bits of the uuids made by own factories
OWN = 0xabcddcba


@functools.lru_cache(None)
def kind(name):
    if name == 'aware':
        return classes.build('Aware', ('UUIDAware', 'Adopt', 'DefaultInit',
                                       'Nodify', 'OdictStorage'))
    if name == 'keep':
        return classes.build(
            'Keep', ('UUIDAware', 'Adopt', 'DefaultInit', 'Nodify',
                     'OdictStorage'),
            (('overwrite_recursiv_on_copy', False),))
    if name == 'attr':
        return classes.build('AwareAttr', (
            'NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Adopt',
            'Attributes', 'DefaultInit', 'Nodify', 'OdictStorage'))
    if name == 'own':
        def uuid_factory(self):
            made = uuid.uuid4().int & ((1 << 96) - 1)
            return uuid.UUID(int=OWN << 96 | made)
        return type('Own', (kind('aware'),), {'uuid_factory': uuid_factory})
    if name == 'derived':
        base = kind('aware')
        return type('Derived', (base,), {})
    if name == 'ref':
        return classes.build('Ref', ('Adopt', 'Reference', 'DefaultInit',
                                     'Nodify', 'OdictStorage'))
    return classes.build('Plain', ('Adopt', 'DefaultInit', 'Nodify',
                                   'DictStorage'))


def is_aware(node):
    from node.interfaces import IUUIDAware
    return IUUIDAware.providedBy(node)


def made_by(node, value, what):
    eq(value.int >> 96 == OWN, isinstance(node, kind('own')),
       'uuid made by the factory of the class (%s)' % what)


VALUES = [None, 0, 'value', 1.5, [1, 2]]


def trees(tier):
    leaf = st.fixed_dictionaries({'kind': st.sampled_from(KINDS)})
    value = st.fixed_dictionaries({'value': st.integers(0, 4)})
    return st.recursive(
        leaf, lambda c: st.fixed_dictionaries({
            'kind': st.sampled_from([k for k in KINDS if k != 'ref']),
            'children': st.lists(gen.one_of(c, c, c, c, value), max_size=4)}),
        max_leaves=gen.size(tier, 10, 25))


def cases(tier):
    flags = st.booleans()
    return st.fixed_dictionaries({
        'tree': gen.one_of(trees(tier), st.fixed_dictionaries({
            'kind': st.sampled_from([x for x in KINDS if x not in ('ref', 'derived')]),
            'children': st.lists(trees(tier), min_size=1, max_size=3)})),
        'wide': gen.one_of(st.just(0), st.just(0), st.just(0),
                          st.just(0), st.just(0), st.just(0), st.just(0),
                          st.integers(10, 80)),
        'keys': gen.pool(gen.names()),
        'ops': gen.ops(
            (3, gen.op('deepcopy', gen.idx)),
            (3, gen.op('set', gen.idx, flags, flags, st.booleans())),
            (2, gen.op('none', gen.idx, gen.idx)),
            (1, gen.op('copy', gen.idx)),
            (1, gen.op('flag', gen.idx, st.booleans())),
            (1, gen.op('add', gen.idx, st.sampled_from(KINDS))),
            (1, gen.op('take', gen.idx)),
            max_size=gen.size(tier, 7, 15)),
    })


def make(spec, keys, nodes):
    node = kind(spec['kind'])(name='n%d' % len(nodes))
    nodes.append(node)
    if is_aware(node):
        check(isinstance(node.uuid, uuid.UUID), 'no uuid from creation')
        made_by(node, node.uuid, 'created')
    for i, child in enumerate(spec.get('children', [])):
        if i < len(keys):
            key = keys[i]
        else:
            key = 'child%d' % i
        if 'value' in child:
            if spec['kind'] != 'attr':
                node[key] = VALUES[child['value']]
        else:
            node[key] = make(child, keys, nodes)
    return node


def walk(node):
    from node.interfaces import INode
    res = [node]
    for child in node.values():
        if INode.providedBy(child):
            res.extend(walk(child))
    return res


def uuids(nodes):
    return [getattr(x, 'uuid', None) for x in nodes]


def distinct(found, what):
    found = [x for x in found if x is not None]
    eq(len(set(found)), len(found), 'number of distinct uuids ' + what)


class Driver(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        nodes = []
        self.keys = case['keys']
        top = make(case['tree'], self.keys, nodes)
        if case.get('wide') and case['tree']['kind'] != 'ref':
            for i in range(case['wide']):
                top['wide%d' % i] = make(
                    {'kind': [x for x in KINDS if x != 'ref'][i % 6]}, self.keys, nodes)
            ctx.label('wide')
        self.tops = [top]
        distinct(uuids(nodes), 'of created nodes')
        self.state = {}
        self.alive = []
        self.remember()

    def remember(self):
        self.alive = [x for top in self.tops for x in walk(top)]
        for node in self.alive:
            self.state[id(node)] = (node, getattr(node, 'uuid', None))

    def unchanged(self, except_=()):
        out = set(id(x) for x in except_)
        for node in self.alive:
            if id(node) not in out:
                same(getattr(node, 'uuid', None), self.state[id(node)][1],
                     'uuid of node not concerned')

    def pick(self, i, aware=False):
        nodes = [x for top in self.tops for x in walk(top)]
        if aware:
            nodes = [x for x in nodes if is_aware(x)]
        return gen.pick(nodes, i)

    def do_deepcopy(self, i):
        top = self.tops[i % len(self.tops)]
        old = walk(top)
        copied = top.deepcopy()
        new = walk(copied)
        self.unchanged()
        eq([type(x) for x in new], [type(x) for x in old], 'copied types')
        eq([x.name for x in new], [x.name for x in old], 'copied names')
        known = [x for x in uuids(self.alive) if x is not None]
        top_aware = is_aware(top)
        recursive = top_aware and top.overwrite_recursiv_on_copy
        for j, (a, b) in enumerate(zip(old, new)):
            check(a is not b, 'copied node %d is the original', j)
            if is_aware(a) and (recursive or (j == 0 and top_aware)):
                check(isinstance(b.uuid, uuid.UUID) and b.uuid not in known,
                      'copied node %d has no new uuid', j)
                made_by(top, b.uuid, 'copied')
            else:
                eq(getattr(b, 'uuid', None), getattr(a, 'uuid', None),
                   'uuid of copied node %d' % j)
        if recursive:
            distinct([x.uuid for x in new if is_aware(x)], 'of the copy')
            self.ctx.label('recursive-copy')
            self.ctx.hit(len([x for x in old if is_aware(x)]) > 1)
        elif top_aware:
            self.ctx.label('keeping-copy')
        if len(self.tops) < 4:
            self.tops.append(copied)

    def do_set(self, i, override, recursive, use_aware):
        user = self.pick(i + 1, True)
        if user is None:
            return
        target = self.pick(i, use_aware)
        concerned = walk(target) if recursive else [target]
        concerned = [x for x in concerned if is_aware(x)]
        before = dict((id(x), x.uuid) for x in concerned)
        used = set(uuids(self.alive))
        if i % 3 == 0:
            # flags are off by default
            kw = {}
            if override:
                kw['override'] = True
            if recursive:
                kw['recursiv'] = True
            user.set_uuid_for(target, **kw)
        else:
            user.set_uuid_for(target, override, recursive)
        self.unchanged(concerned)
        fresh = []
        for node in concerned:
            if override or before[id(node)] is None:
                check(isinstance(node.uuid, uuid.UUID)
                      and node.uuid not in used, 'no fresh uuid set')
                fresh.append(node.uuid)
                made_by(user, node.uuid, 'set')
                if before[id(node)] is None:
                    self.ctx.label('set-missing')
            else:
                same(node.uuid, before[id(node)], 'uuid without override')
        distinct(fresh, 'set')
        self.ctx.hit(recursive and len(concerned) > 1)

    def do_none(self, i, j):
        """Some nodes lose their uuid."""
        for k in (i, j):
            node = self.pick(k, True)
            if node is not None:
                node.uuid = None

    def do_copy(self, i):
        node = self.pick(i, True)
        if node is not None:
            raises(RuntimeError, node.copy)
            self.ctx.label('shallow-refused')

    def do_flag(self, i, value):
        """The flag may be set on the instance."""
        node = self.pick(i, True)
        if node is not None:
            node.overwrite_recursiv_on_copy = value

    def do_add(self, i, name):
        node = self.pick(i)
        if len(walk(node.root)) > 120 or isinstance(node, kind('ref')):
            return
        new = kind(name)()
        if is_aware(new):
            check(isinstance(new.uuid, uuid.UUID)
                  and new.uuid not in uuids(self.alive),
                  'no own uuid from creation')
        node['added%d' % len(node)] = new

    def do_take(self, i):
        node = self.pick(i)
        if node.parent is None or node.parent.get(node.name) is not node:
            return
        before = uuids(walk(node))
        # detach is for nodes, values have no reference index
        top = node.parent.detach(node.name)
        same(top, node, 'detached')
        eq(uuids(walk(node)), before, 'uuids of detached tree')
        node.__parent__ = None
        if len(self.tops) < 4:
            self.tops.append(node)


def run(case, ctx):
    driver = Driver(case, ctx)
    for op in case['ops']:
        getattr(driver, 'do_' + op[0])(*op[1:])
        if op[0] in ('add', 'take', 'copy', 'flag'):
            driver.unchanged()
        driver.remember()


PROP = Prop(
    'P09', [Sub('trees', cases, run, 20000)],
    rule='Trees mixing UUID aware nodes (recursive overwriting on or off, '
         'by class or instance), plain nodes, attributed nodes, referencing '
         'leaves and non-node values; histories of deep copies of roots '
         '(also of copies), set_uuid_for with all flags from and on any '
         'node, resets, additions, detachments, shallow copies. Non-trivial: '
         'a recursive operation over at least two UUID aware nodes.',
    assumptions=['only roots are deep copied: a deep copy of a contained '
                 'node copies its parents, too'])
