# -*- coding: utf-8 -*-
import threading

from hypothesis import strategies as st

from node.base import AttributedNode
from node.base import BaseNode
from node.base import OrderedNode
from node.locking import TreeLock
from node.locking import locktree

from vt import gen
from vt.core import Prop, Sub, check, eq, fail, same
from vt.sched import GRACE, Sched


class Locked(object):
    """Methods running under the tree lock."""

    @locktree
    def method(self, *args, **kw):
        return self.hook(self, *args, **kw)

    @locktree
    def other(self, a, b=2, **kw):
        return self.hook(self, a, b=b, **kw)


class Ordered(OrderedNode):
    method, other = Locked.method, Locked.other


class Base(BaseNode):
    method, other = Locked.method, Locked.other


class Attributed(AttributedNode):
    method, other = Locked.method, Locked.other


KINDS = [Ordered, Base, Attributed]


class Expected(Exception):
    pass


class Abort(BaseException):
    pass


EXPECTED = (Expected, Abort)


# ---------------------------------------------------------------------------
# trees

node_specs = st.lists(st.fixed_dictionaries(dict(
    parent=gen.one_of(st.none(), st.integers(0, 7), st.integers(0, 7)),
    before=st.booleans())), min_size=1, max_size=8)


def build(kind, specs):
    """Nodes, and the tree number of each. Nodes may have been roots with a
    lock of their own before they are attached."""
    nodes = [KINDS[kind](name='n%d' % i)
             for i, spec in enumerate(specs)]
    trees = []
    for i, spec in enumerate(specs):
        if spec['before']:
            with TreeLock(nodes[i]):
                pass
        if spec['parent'] is None or i == 0:
            trees.append(i)
        else:
            trees.append(trees[spec['parent'] % i])
            nodes[spec['parent'] % i]['n%d' % i] = nodes[i]
    return nodes, trees


def free_afterwards(nodes, trees):
    """Nothing is left locked."""
    done = []

    def take():
        for i in sorted(set(trees)):
            lock = TreeLock(nodes[i])
            lock.acquire()
            lock.release()
        done.append(True)
    thread = threading.Thread(target=take, daemon=True)
    thread.start()
    thread.join(GRACE)
    check(done, 'a tree remains locked after all threads released it')


# ---------------------------------------------------------------------------
# scripts

class Script(object):
    """What one thread does."""

    def __init__(self, world, me, ops):
        self.world = world
        self.me = me
        self.ops = ops
        self.held = {}
        self.depth = 0
        self.raised = me if isinstance(me, int) else 0

    def __call__(self):
        for op in self.ops:
            try:
                self.step(op)
            except EXPECTED:
                pass
        check(not self.held, 'harness: still holds %s', self.held)

    def step(self, op):
        self.world.point()
        getattr(self, 'do_' + op[0])(*op[1:])

    def body(self, body):
        self.depth += 1
        try:
            if self.depth < 5:
                for op in body:
                    self.step(op)
            self.world.point()
        finally:
            self.depth -= 1

    def allowed(self, node):
        """Threads take trees in the same order, else they could deadlock.
        """
        tree = self.world.trees[node]
        if tree in self.held or all(x < tree for x in self.held):
            return tree
        return None

    def entered(self, tree):
        self.world.waiting[self.me] = None
        owner = self.world.owner.get(tree)
        check(owner in (None, self.me),
              'thread %s got the lock of tree %s held by thread %s',
              self.me, tree, owner)
        self.world.owner[tree] = self.me
        self.held[tree] = self.held.get(tree, 0) + 1
        self.world.entered(self.me)
        self.world.point()

    def leaving(self, tree):
        self.world.point()
        eq(self.world.owner.get(tree), self.me, 'owner of tree %s' % tree)
        self.held[tree] -= 1
        if not self.held[tree]:
            del self.held[tree]
            self.world.owner[tree] = None

    def do_point(self, n):
        for _ in range(n):
            self.world.point()

    def do_raise(self):
        self.raised += 1
        raise EXPECTED[self.raised % 2]()

    def do_with(self, n, body):
        n %= len(self.world.nodes)
        tree = self.allowed(n)
        if tree is None:
            return
        self.world.waiting[self.me] = tree
        with TreeLock(self.world.nodes[n]):
            self.entered(tree)
            try:
                self.body(body)
            finally:
                self.leaving(tree)
        self.world.left(self.me)

    def do_lock(self, n, times, kept, body):
        """Explicitly, possibly several times, possibly with a lock object
        shared by the threads."""
        n %= len(self.world.nodes)
        tree = self.allowed(n)
        if tree is None:
            return
        self.world.waiting[self.me] = tree
        lock = self.world.kept.get(n) if kept else None
        lock = lock or TreeLock(self.world.nodes[n])
        taken = 0
        try:
            for _ in range(times):
                self.world.waiting[self.me] = tree
                lock.acquire()
                taken += 1
                self.entered(tree)
            self.body(body)
        finally:
            for _ in range(taken):
                self.leaving(tree)
                lock.release()
                self.world.left(self.me)

    def do_call(self, n, name, args, kw, how, body):
        """Decorated method."""
        n %= len(self.world.nodes)
        tree = self.allowed(n)
        if tree is None:
            return
        node = self.world.nodes[n]
        result, error = object(), EXPECTED[(n + len(args)) % 2]()
        called = []

        def hook(me, *a, **k):
            same(me, node, 'self of decorated method')
            called.append(1)
            self.entered(tree)
            try:
                if name == 'method':
                    eq(a, tuple(args), 'arguments')
                    eq(k, kw, 'keyword arguments')
                else:
                    eq((a, k.pop('b')), ((1,), kw.get('b', 2)), 'arguments')
                    eq(k, {x: kw[x] for x in kw if x != 'b'}, 'keywords')
                self.body(body)
                if how:
                    raise error
                return result
            finally:
                self.leaving(tree)
        self.world.hooks.mine = getattr(self.world.hooks, 'mine', [])
        self.world.hooks.mine.append(hook)
        self.world.waiting[self.me] = tree
        try:
            if name == 'method':
                got = node.method(*args, **kw)
            else:
                got = node.other(1, **kw)
        except EXPECTED as e:
            if how and not body:
                same(e, error, 'exception of decorated method')
            raise
        else:
            check(not how, 'exception of decorated method is lost')
            same(got, result, 'result of decorated method')
        finally:
            self.world.hooks.mine.pop()
            eq(len(called), 1, 'calls of the decorated method')
            self.world.left(self.me)

    def do_try(self, body):
        try:
            self.body(body)
        except EXPECTED:
            pass


class World(object):

    def __init__(self, case, ctx):
        self.nodes, self.trees = build(case['kind'], case['nodes'])
        self.ctx = ctx
        self.owner = {}
        self.waiting = {}
        self.kept = {}
        self.hooks = threading.local()
        self.sched = None
        self.script = None
        self.contended = False
        for i in case['kept']:
            i %= len(self.nodes)
            self.kept[i] = TreeLock(self.nodes[i])
        for node in self.nodes:
            node.hook = self.hook

    def hook(self, *args, **kw):
        return self.hooks.mine[-1](*args, **kw)

    def point(self):
        if self.sched is not None:
            self.sched.point()

    def may_block(self, i):
        tree = self.waiting.get(i)
        if tree is None:
            return False
        return self.owner.get(tree) not in (None, i)

    def entered(self, me):
        pass

    def left(self, me):
        pass


node = st.integers(0, 7)


def scripts(max_leaves=6):
    leaf = st.lists(gen.one_of(gen.op('point', st.integers(1, 3)),
                              gen.op('point', st.integers(1, 3)),
                              gen.op('raise')), max_size=2)

    def extend(inner):
        kw = st.dictionaries(st.sampled_from(['b', 'c', 'fn', 'lock']),
                             st.integers(0, 2), max_size=2)
        return st.lists(gen.one_of(
            gen.op('with', node, inner), gen.op('with', node, inner),
            gen.op('lock', node, st.integers(1, 3), st.booleans(), inner),
            gen.op('call', node, st.sampled_from(['method', 'other']),
                   st.lists(st.integers(0, 2), max_size=2), kw,
                   st.booleans(), inner),
            gen.op('try', inner), gen.op('point', st.integers(1, 3)),
        ), min_size=1, max_size=3)
    return extend(st.recursive(leaf, extend, max_leaves=max_leaves))


def schedules(n=25, steps=12):
    return st.lists(st.tuples(st.integers(0, 2), st.integers(1, steps))
                    .map(list), max_size=n)


def thread_cases(tier):
    return st.fixed_dictionaries(dict(
        kind=st.integers(0, 2), nodes=node_specs, kept=st.lists(node, max_size=2),
        threads=st.lists(scripts(4), min_size=2, max_size=3),
        schedule=schedules(), opcodes=st.booleans()))


def run_threads(case, ctx):
    world = World(case, ctx)
    threads = [Script(world, i, ops) for i, ops in enumerate(case['threads'])]
    world.sched = sched = Sched(threads, case['schedule'], case['opcodes'],
                                world.may_block)
    sched.run()
    free_afterwards(world.nodes, world.trees)
    ctx.label('threads%d' % len(threads))
    if sched.blocks:
        ctx.label('blocked')
    if sched.switches > 1:
        ctx.label('switched')
    ctx.hit(sched.switches > 1)


# ---------------------------------------------------------------------------
# first access

def race_cases(tier):
    return st.fixed_dictionaries(dict(
        kind=st.integers(0, 2), nodes=st.lists(st.fixed_dictionaries(dict(
            parent=st.integers(0, 3),
            before=st.just(False))), min_size=1, max_size=4),
        picks=st.lists(st.tuples(node, st.sampled_from(
            ['with', 'lock', 'call'])).map(list), min_size=2, max_size=3),
        schedule=schedules(12, 25), opcodes=st.booleans()))


def run_race(case, ctx):
    """All threads take the lock of a fresh tree for the first time."""
    body = [['point', 3]]
    threads = []
    for n, how in case['picks']:
        if how == 'with':
            threads.append([['with', n, body]])
        elif how == 'lock':
            threads.append([['lock', n, 1, False, body]])
        else:
            threads.append([['call', n, 'method', [], {}, False, body]])
    run_threads(dict(case, kept=[], threads=threads), ctx)


# ---------------------------------------------------------------------------
# probing

class ProbeWorld(World):
    """After each change a further thread tries to take each tree."""

    def __init__(self, case, ctx):
        World.__init__(self, case, ctx)
        self.left_probes = 14
        self.budget = 6

    def entered(self, me):
        self.probe()

    def left(self, me):
        self.probe()

    def probe(self):
        if self.left_probes <= 0:
            return
        self.left_probes -= 1
        for tree in sorted(set(self.trees)):
            held = tree in self.script.held
            if held:
                if self.budget <= 0:
                    continue
                self.budget -= 1
            node = gen.pick([x for x, t in zip(self.nodes, self.trees)
                             if t == tree], self.left_probes)
            got = threading.Event()

            def take():
                with TreeLock(node):
                    got.set()
            thread = threading.Thread(target=take, daemon=True)
            thread.start()
            if held:
                check(not got.wait(0.01), 'tree %s held %d times was taken '
                      'by another thread', tree,
                      self.script.held[tree])
                self.ctx.label('probed-held')
            else:
                check(got.wait(GRACE), 'tree %s which is not held cannot be '
                      'taken by another thread', tree)
                self.ctx.label('probed-free')
                thread.join(GRACE)


def probe_cases(tier):
    return st.fixed_dictionaries(dict(
        kind=st.integers(0, 2), nodes=node_specs, kept=st.lists(node, max_size=2), ops=scripts(6)))


def run_probe(case, ctx):
    world = ProbeWorld(case, ctx)
    world.script = Script(world, 0, case['ops'])
    world.script()
    free_afterwards(world.nodes, world.trees)
    ctx.hit(world.budget < 6)


# ---------------------------------------------------------------------------
# moving nodes while locks are held

def move_cases(tier):
    leaf = st.just([])

    def extend(inner):
        return st.lists(gen.one_of(
            gen.op('with', node, inner), gen.op('lock', node, inner),
            gen.op('call', node, inner), gen.op('move', node, node),
            gen.op('move', node, node), gen.op('split', node)),
            min_size=1, max_size=3)
    return st.fixed_dictionaries(dict(
        kind=st.integers(0, 2), nodes=node_specs,
        ops=extend(st.recursive(leaf, extend, max_leaves=6))))


class Moves(object):
    """A lock belongs to the root it was taken for, until it is released
    by the one who took it, wherever nodes went in between."""

    def __init__(self, case, ctx):
        self.nodes, _ = build(case['kind'], case['nodes'])
        self.parents = [None if x['parent'] is None or i == 0
                        else x['parent'] % i
                        for i, x in enumerate(case['nodes'])]
        self.ctx = ctx
        self.held = {}
        self.budget = 5
        self.moved = 0
        for node in self.nodes:
            node.hook = lambda *a, **k: self.body(*a, **k)

    def root(self, n):
        while self.parents[n] is not None:
            n = self.parents[n]
        return n

    def body(self, me, ops, root):
        self.held[root] = self.held.get(root, 0) + 1
        try:
            for op in ops:
                getattr(self, 'do_' + op[0])(*op[1:])
                self.probe()
        finally:
            self.held[root] -= 1

    def do_with(self, n, ops):
        n %= len(self.nodes)
        with TreeLock(self.nodes[n]):
            self.body(None, ops, self.root(n))

    def do_lock(self, n, ops):
        n %= len(self.nodes)
        root = self.root(n)
        lock = TreeLock(self.nodes[n])
        lock.acquire()
        self.body(None, ops, root)
        lock.release()

    def do_call(self, n, ops):
        n %= len(self.nodes)
        self.nodes[n].method(ops, self.root(n))

    def do_move(self, n, m):
        n, m = n % len(self.nodes), m % len(self.nodes)
        up = m
        while up is not None:
            if up == n:
                return
            up = self.parents[up]
        moved, target = self.nodes[n], self.nodes[m]
        if self.parents[n] is not None:
            self.nodes[self.parents[n]].detach(moved.name)
        target[moved.name] = moved
        self.parents[n] = m
        self.moved += any(self.held.values())

    def do_split(self, n):
        n %= len(self.nodes)
        if self.parents[n] is not None:
            moved = self.nodes[n]
            self.nodes[self.parents[n]].detach(moved.name)
            moved.__parent__ = self.parents[n] = None

    def probe(self):
        for n in range(len(self.nodes)):
            root = self.root(n)
            if not self.held.get(root) or self.budget <= 0:
                continue
            self.budget -= 1
            got = threading.Event()

            def take():
                with TreeLock(self.nodes[n]):
                    got.set()
            threading.Thread(target=take, daemon=True).start()
            check(not got.wait(0.01), 'tree %s which is held was taken by '
                  'another thread', root)
            self.ctx.label('probed-held')


def run_moves(case, ctx):
    world = Moves(case, ctx)
    for op in case['ops']:
        getattr(world, 'do_' + op[0])(*op[1:])
    roots = [world.root(n) for n in range(len(world.nodes))]
    free_afterwards(world.nodes, roots)
    if world.moved:
        ctx.label('moved-while-held')
    ctx.hit(world.moved)


PROP = Prop(
    'P28', [Sub('moves', move_cases, run_moves, 1500), Sub('threads', thread_cases, run_threads, 1200),
            Sub('first', race_cases, run_race, 1500),
            Sub('probe', probe_cases, run_probe, 700)],
    rule='Two or three threads running scripts of nested acquisitions '
         '(context manager, explicit, repeated, shared lock objects, '
         'decorated methods, exceptions) on nodes of several trees, '
         'preempted at generated lines or bytecodes of the library; owner '
         'bookkeeping at each acquisition and release detects two owners, '
         'blocked threads without reason, locks never released. Races of '
         'first access. Single histories with another thread probing each '
         'tree after each step. Nodes moved while locks are held. '
         'Non-trivial: at least two preemptive switches, or a held lock was '
         'probed, or a node was moved.',
    timing=True,
    assumptions=['threads take several trees in one order',
                 'with several threads nodes are not moved while their tree '
                 'is locked'])
