# -*- coding: utf-8 -*-
import functools
import json
import sys
import threading

from hypothesis import strategies as st

from vt import classes, gen, lifelog
from vt.core import Prop, Sub, check, eq, raises, same
from vt.mapmodel import MapDriver, map_ops
from vt.props import p27
from vt.sched import LIB, Sched

HIDDEN = 'hidden-'

# node id -> tree it belongs to
ACTIVE = {}


class Refused(Exception):
    pass


def passing(node, key=None):
    tree = ACTIVE.get(id(node))
    if tree is not None:
        tree.world.passing(tree)
        if key is not None and tree.refused in (
                (id(node), key), (id(node), str(key)[len(HIDDEN):])):
            raise Refused(key)


@functools.lru_cache(None)
def make_hook():
    from plumber import Behavior, plumb

    class Hook(Behavior):
        """Something else happens before and after storage is used."""

        @plumb
        def __getitem__(_next, self, key):
            passing(self)
            return _next(self, key)

        @plumb
        def __setitem__(_next, self, key, value):
            passing(self, key)
            _next(self, key, value)
            passing(self)

        @plumb
        def __delitem__(_next, self, key):
            passing(self, key)
            _next(self, key)
            passing(self)

        @plumb
        def __iter__(_next, self):
            for key in _next(self):
                passing(self)
                yield key
    return Hook


@functools.lru_cache(300)
def hooked(names, place, cuts=()):
    return stacked(names, place, cuts)


def stacked(names, place, cuts, bodies=({},)):
    """``cuts`` are the places where the class is a subclass of the class
    with the behaviors that follow. ``bodies`` are those of the classes.
    """
    import node.behaviors as b
    from plumber import plumbing
    chain = [getattr(b, x) for x in names]
    chain.insert(max(0, len(chain) - 1 - place), make_hook())
    base = object
    end = len(chain)
    cuts = sorted(set(x % len(chain) for x in cuts) | {0}, reverse=True)
    for i, cut in enumerate(cuts):
        body = dict(bodies[i % len(bodies)]) if i < len(bodies) else {}
        base = plumbing(*chain[cut:end])(type('Hooked', (base,), body))
        end = cut
    return base


EXTRA = [
    (3, 'detach'), (2, 'deepcopy'), (2, 'treerepr'), (2, 'serialize'),
    (2, 'load'), (2, 'path'), (1, 'lock'), (3, 'fallback'), (3, 'attr'),
    (1, 'uuid'), (2, 'invalidate'), (3, 'insert'), (1, 'acquire'),
    (2, 'filter'), (2, 'copy'), (3, 'subtree'), (3, 'refuse'),
    (3, 'keep'), (2, 'reads')]


def tree_cases(quick, thorough):
    def strategy(tier):
        k = gen.idx
        size = quick if tier == 'quick' else thorough
        return st.fixed_dictionaries({
            'cls': st.integers(0, 1),
            'keys': gen.pool(gen.names(), max_size=5),
            'filled': st.lists(st.integers(0, 8), max_size=4),
            'ops': gen.ops(*map_ops(forms=['dict', 'pairs', 'gen', 'kw'],
                                    fill=4) + [
                (w, gen.op(name, k)) for w, name in EXTRA],
                min_size=size // 2, max_size=size)})
    return strategy


def class_cases():
    return st.lists(st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(
            ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
             'Lifecycle', 'Adopt', 'Adopt', 'Attributes', 'Cache',
             'Invalidate', 'Reference', 'Order', 'AsAttrAccess',
             'GetattrChildren', 'Alias', 'Fallback', 'Events']),
            max_size=8, unique=True),
        'place': st.integers(0, 9)}), min_size=1, max_size=2)


def nested_cases(tier):
    return st.fixed_dictionaries({
        'classes': class_cases(),
        'trees': st.lists(tree_cases(12, 24)(tier), min_size=2, max_size=3),
        'schedule': st.lists(st.sampled_from([0, 0, 1, 1, 1, 2]),
                             min_size=2, max_size=12),
    })


def thread_cases(tier):
    return st.fixed_dictionaries({
        'classes': class_cases(),
        'trees': st.lists(tree_cases(6, 10)(tier), min_size=2, max_size=3),
        'schedule': p27.schedules(10, 40), 'opcodes': st.booleans(),
    })


class Tree(MapDriver):

    def __init__(self, world, number, spec, ctx):
        self.world = world
        self.number = number
        self.names, self.cls = world.classes[spec['cls'] % len(world.classes)]
        self.known = []
        self.busy = False
        self.silent = False
        self.refused = None
        self.log = []
        self.expected = []
        self.attrs = {}
        self.script = list(spec['ops'])
        node = self.make(self.cls, name='root%d' % number)
        shipped = classes.shipped('Node' if 'Reference' in self.names
                                  else 'OrderedNode')

        def factory(i):
            return self.make(self.cls) if i % 3 else shipped()
        MapDriver.__init__(self, node, spec['keys'], factory, True, ctx,
                           overwrite='Reference' not in self.names)
        self.fallback = self.make_fallback()
        for n in spec['filled']:
            self.do_set(n, n)
            self.do_subtree(n)
        del self.log[:]

    def make(self, cls, **kw):
        node = cls(**kw)
        self.known.append(node)
        ACTIVE[id(node)] = self
        return node

    def make_fallback(self):
        names = classes.normalize(['Fallback']) + ['OdictStorage']
        cls = hooked(tuple(names), 0)
        top = self.make(cls, name='top')
        top.fallback_key = 'f'
        for names in (['f', 'a'], ['f', 'b', 'c'], ['s', 'b', 'd'],
                      ['s', 't']):
            node = top
            for name in names:
                if name not in node.keys():
                    node[name] = self.make(cls)
                node = node[name]
        return top

    # the model knows the events

    def model_set(self, key, value):
        self.expected.append(('NodeAddedEvent', key))
        MapDriver.model_set(self, key, value)

    def model_del(self, key):
        self.expected.append(('NodeRemovedEvent', key))
        MapDriver.model_del(self, key)

    def notified(self, event):
        name = type(event).__name__
        if name == 'NodeAddedEvent':
            if event.newParent is self.node:
                self.log.append((name, event.newName))
        elif name in ('NodeRemovedEvent', 'NodeDetachedEvent'):
            if event.oldParent is self.node:
                self.log.append((name, event.oldName))

    def run(self):
        op = self.script.pop(0)
        self.busy = True
        del self.log[:]
        self.expected = []
        try:
            self.step(op, True)
            log = list(self.log)
            if 'Lifecycle' in self.names and op[0] != 'update':
                eq(log, self.expected, 'events of %s' % op)
            self.silent = True
            self.check()
        finally:
            self.busy = self.silent = False

    def check(self):
        MapDriver.check(self)
        if 'Adopt' in self.names:
            for key, value in self.model.items():
                same(value.parent, self.node, 'parent')
                eq(value.name, key, 'name')
        if 'Attributes' in self.names:
            eq(dict(self.node.attrs.items()), self.attrs, 'attributes')
        if 'Reference' in self.names:
            for value in self.model.values():
                same(self.node.node(value.uuid), value, 'child by uuid')

    def twice(self, func, what):
        """Result while other things happen and while nothing happens."""
        got = outcome(func)
        self.silent = True
        try:
            want = outcome(func)
        finally:
            self.silent = False
        eq(got, want, what)

    # operations

    def do_detach(self, k):
        key = self.key(k)
        if key in self.model:
            same(self.node.detach(key), self.model[key], 'detach()')
            self.model_del(key)
            if 'Lifecycle' in self.names:
                self.expected[-1] = ('NodeDetachedEvent', key)

    def do_reads(self, k):
        self.check()

    def do_subtree(self, k):
        """Children of a child."""
        key = self.key(k)
        child = self.model.get(key)
        if child is None or len(child) > 4:
            return
        made = self.make(self.cls)
        name = 'sub%d' % len(child)
        child[name] = made
        same(child[name], made, 'child of child')
        self.world.ctx.label('deep')

    def do_refuse(self, k):
        """A child is not accepted."""
        key = self.key(k)
        if key in self.model:
            return
        child = self.make(self.cls, name='mine')
        child['x'] = self.make(self.cls)
        self.refused = (id(self.node), key)
        try:
            if k % 2:
                raises(Refused, self.node.__setitem__, key, child)
            else:
                raises(Refused, self.node.update, [(key, child)])
        finally:
            self.refused = None
        eq(child.name, 'mine', 'name of refused child')
        same(child.parent, None, 'parent of refused child')
        eq(list(child.keys()), ['x'], 'children of refused child')
        self.world.ctx.label('refused')

    def do_keep(self, k):
        """A child is not released."""
        key = self.key(k)
        if key not in self.model:
            return
        self.refused = (id(self.node), key)
        try:
            raises(Refused, [self.node.__delitem__, self.node.pop,
                             self.node.detach][k % 3], key)
        finally:
            self.refused = None
        self.world.ctx.label('kept')

    def do_deepcopy(self, k):
        def copied():
            new = self.node.deepcopy()
            check(new is not self.node, 'copy is the node')
            return shape(new)
        self.twice(copied, 'deep copy')

    def do_copy(self, k):
        if 'UUIDAware' in self.names:
            return
        self.twice(lambda: [(a, id(b)) for a, b in self.node.copy().items()],
                   'copy')

    def do_treerepr(self, k):
        self.twice(self.node.treerepr, 'treerepr()')

    def do_serialize(self, k):
        from node.serializer import serialize
        self.twice(lambda: serialize(self.node), 'serialize()')
        self.twice(lambda: serialize(self.node, simple_mode=True),
                   'serialize() in simple mode')

    def do_load(self, k):
        from node.serializer import deserialize
        key = self.key(k)
        if key in self.model or 'Adopt' not in self.names:
            return
        kind = 'Node' if 'Reference' in self.names else 'OrderedNode'

        def spec(name, children=()):
            return {'__node__': {
                'class': 'node.base.' + kind, 'name': name,
                'children': list(children)}}
        data = json.dumps(spec(key, [spec('x', [spec('y')]), spec('z')]))
        node = deserialize(data, root=self.node)
        check(any(x is node for x in self.node.values()), 'loaded node')
        self.model_set(key, node)
        eq(shape(node), (kind, [('x', (kind, [('y', (kind, []))])),
                                ('z', (kind, []))]), 'loaded tree')

    def do_path(self, k):
        from node.utils import node_by_path
        key = self.key(k)
        if key in self.model:
            same(node_by_path(self.node, [key]), self.model[key],
                 'node_by_path()')
            if 'Adopt' in self.names:
                eq(self.model[key].path, [self.node.name, key], 'path')
                same(self.model[key].root, self.node, 'root')

    def do_lock(self, k):
        from node.locking import TreeLock
        with TreeLock(self.node):
            self.do_path(k)

    def do_fallback(self, k):
        top = self.fallback
        if k % 4 == 0:
            same(top['s']['a'], top['f']['a'], 'fallback')
        elif k % 4 == 1:
            same(top['s']['b']['c'], top['f']['b']['c'], 'fallback')
        elif k % 4 == 2:
            check('x' not in top['s']['b'], 'found what is not there')
            same(top['s'].get('y'), None, 'get() of missing')
        else:
            same(top['s']['b']['d'], top['s']['b'].get('d'), 'child')

    def do_attr(self, k):
        if 'Attributes' in self.names:
            self.node.attrs[self.key(k)] = k
            self.attrs[self.key(k)] = k

    def do_uuid(self, k):
        import uuid
        if 'UUIDAware' in self.names or 'Reference' in self.names:
            new = uuid.uuid4()
            self.node.uuid = new
            eq(self.node.uuid, new, 'uuid')

    def do_invalidate(self, k):
        if not hasattr(self.node, 'invalidate'):
            return
        key = self.key(k)
        if key in self.model:
            self.node.invalidate(key)
            self.model_del(key)

    def do_insert(self, k):
        key = self.key(k)
        if not {'Order', 'Adopt'} <= set(self.names) or key in self.model:
            return
        child = self.factory(k)
        child.__name__ = key
        keys = list(self.model)
        if keys and k % 2:
            at = keys.index(keys[k % len(keys)])
            self.node.insertbefore(child, self.model[keys[at]])
        else:
            at = 0
            self.node.insertfirst(child)
        self.model_set(key, child)
        items = list(self.model.items())
        items.insert(at, items.pop())
        self.model = dict(items)

    def do_acquire(self, k):
        key = self.key(k)
        if key in self.model and 'Adopt' in self.names:
            same(self.model[key].acquire(self.cls), self.node, 'acquire()')

    def do_filter(self, k):
        from node.interfaces import INode
        got = self.node.filteredvalues(INode)
        self.identical(got, list(self.model.values()), 'filteredvalues()')


def outcome(func):
    try:
        return 'result', func()
    except (TypeError, ValueError, AttributeError, RuntimeError) as e:
        return 'error', type(e).__name__, str(e)


def shape(node):
    return (type(node).__name__, [(k, shape(v)) for k, v in node.items()])


class World(object):

    def __init__(self, case, ctx):
        self.ctx = ctx
        ACTIVE.clear()
        self.ready = False
        self.classes = []
        for spec in case['classes']:
            names = classes.normalize(spec['flags']) + ['OdictStorage']
            cuts = tuple(spec.get('cuts', ()))
            self.classes.append((names, stacked(
                tuple(names), spec['place'], cuts, spec['bodies'])
                if spec.get('bodies') else hooked(
                tuple(names), spec['place'], cuts)))
        lifelog.install(self.hook)
        self.depth = self.nested = 0
        self.turns = list(case['schedule'])
        self.turn = 0
        self.point = None
        self.trees = []
        for i, spec in enumerate(case['trees']):
            self.trees.append(Tree(self, i, spec, ctx))
        self.ready = True

    def hook(self, ob, event):
        tree = ACTIVE.get(id(getattr(event, 'newParent', None)
                             or getattr(event, 'oldParent', None)))
        if tree is None:
            tree = ACTIVE.get(id(ob))
        if tree is not None:
            tree.notified(event)
            self.passing(tree)

    def passing(self, tree):
        if not self.ready or tree.silent or not tree.busy:
            return
        if self.point is not None:
            self.point()
            return
        if self.depth > 3:
            return
        n = self.turns[self.turn % len(self.turns)]
        self.turn += 1
        if not n:
            return
        other = self.trees[(tree.number + n) % len(self.trees)]
        if other.busy or not other.script:
            return
        self.depth += 1
        self.nested += 1
        try:
            other.run()
        finally:
            self.depth -= 1


def run_nested(case, ctx):
    world = World(case, ctx)
    try:
        for tree in world.trees:
            while tree.script:
                tree.run()
        for tree in world.trees:
            tree.busy = False
            tree.check()
    finally:
        ACTIVE.clear()
        lifelog.install()
    ctx.hit(world.nested >= 2)


def run_threads(case, ctx):
    world = World(case, ctx)

    def script(tree):
        def run():
            while tree.script:
                world.point()
                tree.run()
        return run
    try:
        sched = Sched([script(x) for x in world.trees], case['schedule'],
                      case['opcodes'])
        world.point = sched.point
        sched.run()
        world.point = lambda: None
        for tree in world.trees:
            tree.check()
    finally:
        ACTIVE.clear()
        lifelog.install()
    ctx.hit(sched.switches > 2)


# ---------------------------------------------------------------------------
# an operation on another tree by another thread at some point of each one

def preempt_cases(tier):
    return st.fixed_dictionaries({
        'classes': class_cases(),
        'trees': st.lists(tree_cases(10, 20)(tier), min_size=2, max_size=2),
        'points': st.lists(st.lists(st.integers(0, 80), min_size=1,
                                    max_size=3), min_size=3, max_size=10),
        'opcodes': st.integers(0, 2), 'schedule': st.just([0])})


class Preempted(object):
    """Runs a function, others at points of it in other threads."""

    def __init__(self, func, points, opcodes, other):
        self.func, self.other, self.opcodes = func, other, opcodes
        self.points = set(points)
        self.count = self.switches = 0
        self.errors = []
        self.threads = []

    def trace(self, frame, event, arg):
        if event != 'call' or not frame.f_code.co_filename.startswith(LIB):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.trace_lines

    def trace_lines(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            if self.count in self.points:
                self.switches += 1
                thread = threading.Thread(target=self.switched, daemon=True)
                thread.start()
                # may wait for a lock
                thread.join(0.5)
                self.threads.append(thread)
            self.count += 1
        return self.trace_lines

    def switched(self):
        try:
            self.other()
        except BaseException as e:
            self.errors.append(e)

    def run(self):
        sys.settrace(self.trace)
        try:
            self.func()
        finally:
            sys.settrace(None)
            for thread in self.threads:
                thread.join(20)
        for e in self.errors:
            raise e


def run_preempt(case, ctx):
    world = World(case, ctx)
    world.ready = False
    first, second = world.trees
    running = threading.Lock()

    def other():
        with running:
            if second.script:
                second.run()
    switches = 0
    try:
        for i in range(len(first.script)):
            step = Preempted(
                first.run, [x * (1, 1, 7)[case['opcodes']] for x in
                            case['points'][i % len(case['points'])]],
                case['opcodes'], other)
            step.run()
            switches += step.switches
        for tree in world.trees:
            tree.check()
    finally:
        ACTIVE.clear()
        lifelog.install()
    ctx.hit(switches > 2)


PROP = Prop(
    'P44', [Sub('nested', nested_cases, run_nested, 9000),
            Sub('threads', thread_cases, run_threads, 1000),
            Sub('preempted', preempt_cases, run_preempt, 3000)],
    rule='Two or three trees of one or two random compositions, each with an '
         'own history (mapping operations, detaching, insertion, copies, '
         'serialization, loading, printing, lookups by path and fallback, '
         'attributes, uuids, locks) and an own model. Within an operation '
         'on one tree, wherever its storage is used or a lifecycle event '
         'arrives, operations on the others run (up to 4 deep); or each '
         'tree has its own thread, preempted at generated lines or '
         'bytecodes; or up to three times within each operation another '
         'thread works on the other tree. Non-trivial: two nested operations; more than two '
         'preemptive switches.',
    timing=True,
    assumptions=['classes are shared, nodes are not'])
