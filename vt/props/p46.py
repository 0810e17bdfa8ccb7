# -*- coding: utf-8 -*-
import functools

from hypothesis import strategies as st

from vt import classes, gen, lifelog
from vt.core import Prop, Sub, Violation, eq, fail

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Adopt',
         'Attributes', 'Attributes', 'Reference', 'Reference', 'Order',
         'Order', 'Cache', 'Invalidate', 'AsAttrAccess', 'GetattrChildren',
         'UnicodeAware', 'Alias', 'Fallback', 'Events']
# changes handlers make at most
LIMIT = 25


class Boom(Exception):
    pass


def actions():
    k = gen.idx
    return gen.one_of(
        gen.op('add', k, k, k), gen.op('add', k, k, k),
        gen.op('add', k, k, k), gen.op('setdefault', k, k, k),
        gen.op('insert', k, k, k, st.integers(0, 3)),
        gen.op('del', k, k), gen.op('del', k, k), gen.op('detach', k, k),
        gen.op('detach', k, k), gen.op('pop', k, k), gen.op('popitem', k),
        gen.op('attr', k, k, st.integers(0, 3)), gen.op('delattr', k, k),
        gen.op('uuid', k), gen.op('swap', k, k, k), gen.op('copy', k))


def cases(tier):
    k = gen.idx
    top = gen.one_of(actions(), actions(), actions(), actions(),
                     gen.op('update', k, st.lists(st.tuples(k, k).map(list),
                                                  max_size=3)),
                     gen.op('clear', k), gen.op('new', k))
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=6, unique=True),
        'odict': gen.one_of(st.booleans(), st.just(True)),
        'keys': gen.pool(gen.names(), min_size=2, max_size=5),
        'ops': st.lists(top, min_size=4, max_size=gen.size(tier, 18, 40)),
        # what the handlers of consecutive events do
        'handlers': st.lists(gen.one_of(
            st.just([]), st.lists(actions(), min_size=1, max_size=2),
            st.lists(gen.one_of(actions(), st.just(['it']),
                                st.just(['raise'])),
                     min_size=1, max_size=3)),
            min_size=2, max_size=8),
        'depth': st.integers(1, 3)})


@functools.lru_cache(None)
def attributes_class():
    from node.behaviors import AttributesLifecycle, NodeAttributes
    from plumber import plumbing
    return plumbing(AttributesLifecycle)(
        type('LifecycleAttributes', (NodeAttributes,), {}))


def make_class(case):
    flags = set(case['flags']) | {'Lifecycle', 'Adopt'}
    if not case['odict']:
        flags.discard('Order')
    flags = classes.normalize(flags)
    base = classes.compose(flags, 'OdictStorage' if case['odict']
                           else 'DictStorage')
    if 'Attributes' in flags:
        base = type('Alive', (base,),
                    {'attributes_factory': attributes_class()})
    return base, flags


class World(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.cls, self.flags = make_class(case)
        self.plain = classes.shipped('Node' if 'Reference' in self.flags
                                     else 'OrderedNode')
        self.keys = [gen.dk(key) for key in case['keys']]
        self.nodes = []
        self.log = []
        self.stack = []

    def number(self, node):
        for i, other in enumerate(self.nodes):
            if other is node:
                return i
        return None if node is None else type(node).__name__

    def create(self, n, kind):
        """Make the node with number n."""
        while len(self.nodes) <= n:
            self.nodes.append(None)
        self.pending = n
        node = self.cls() if kind % 4 else self.plain()
        self.nodes[n] = node

    # each change, with everything decided: the same in both worlds

    def do_new(self, n, kind):
        self.create(n, kind)

    def do_add(self, p, key, c):
        self.nodes[p][key] = self.nodes[c]

    def do_setdefault(self, p, key, c):
        return self.nodes[p].setdefault(key, self.nodes[c])

    def do_insert(self, p, key, c, how, ref):
        node, child = self.nodes[p], self.nodes[c]
        child.__name__ = key
        if how == 0:
            node.insertfirst(child)
        elif how == 1:
            node.insertlast(child)
        elif how == 2:
            node.insertbefore(child, self.nodes[ref])
        else:
            node.insertafter(child, self.nodes[ref])

    def do_swap(self, p, a, b):
        self.nodes[p].swap(self.nodes[a], self.nodes[b])

    def do_del(self, p, key):
        del self.nodes[p][key]

    def do_detach(self, p, key):
        return self.nodes[p].detach(key)

    def do_pop(self, p, key):
        return self.nodes[p].pop(key)

    def do_popitem(self, p):
        return self.nodes[p].popitem()[1]

    def do_attr(self, p, key, value):
        self.nodes[p].attrs[key] = value

    def do_delattr(self, p, key):
        del self.nodes[p].attrs[key]

    def do_uuid(self, p):
        import uuid
        self.nodes[p].uuid = uuid.uuid4()

    def do_copy(self, p):
        # notifies nothing; nothing is in between
        return snapshot_of(self.nodes[p].deepcopy())

    def perform(self, op):
        try:
            res = getattr(self, 'do_' + op[0])(*op[1:])
        except Boom:
            return 'boom'
        except Violation:
            raise
        except (KeyError, ValueError, AttributeError, TypeError,
                NotImplementedError) as e:
            return 'raised', type(e).__name__
        if isinstance(res, tuple):
            return res
        return 'returned', self.number(res)

    def hook(self, ob, event):
        node = event.object
        if type(event).__name__ == 'NodeCreatedEvent':
            if self.number(node) is None or isinstance(
                    self.number(node), str):
                if self.pending is None:
                    # a copy
                    return
                self.nodes[self.pending] = node
                self.pending = None
        name = getattr(event, 'newName', None)
        if name is None:
            name = getattr(event, 'oldName', None)
        parent = getattr(event, 'newParent', None)
        if parent is None:
            parent = getattr(event, 'oldParent', None)
        self.log.append((type(event).__name__, self.number(node),
                         self.number(parent), name))
        self.handle(type(event).__name__, node, parent, name)

    pending = None

    def handle(self, kind, node, parent, name):
        pass

    def snapshot(self):
        res = []
        for i, node in enumerate(self.nodes):
            one = [type(node).__name__, node.name, self.number(node.parent),
                   [(k, self.number(v)) for k, v in node.items()]]
            if not self.case['odict'] and one[0] != 'OrderedNode':
                one[3].sort()
            if 'Attributes' in self.flags and isinstance(node, self.cls):
                one.append(list(node.attrs.items()))
            if 'Reference' in self.flags:
                one.append([self.number(node.node(x.uuid))
                            for x in self.nodes])
            res.append(one)
        return res


def snapshot_of(node):
    return (type(node).__name__, [(k, snapshot_of(v)) for k, v in sorted(
        node.items())])


class First(World):
    """Handlers act, and everything is written down."""

    def __init__(self, case, ctx):
        World.__init__(self, case, ctx)
        self.script = []
        self.results = []
        self.count = 0
        self.turn = 0
        self.nested = 0

    def contained(self, node):
        parent = node.parent
        return parent is not None and node.name in parent.keys() \
            and parent[node.name] is node

    def node(self, i):
        return i % len(self.nodes)

    def above(self, node):
        """The node and its (former, known finding of P04) parents."""
        res = []
        while node is not None:
            res.append(node)
            node = node.parent
        return res

    def within(self, n, p):
        return any(x is self.nodes[n] for x in self.above(self.nodes[p]))

    def free(self, i, p):
        """A node which can be added to p."""
        free = [x for x in range(len(self.nodes))
                if not self.contained(self.nodes[x])
                and not self.within(x, p)]
        if i % 3 and free:
            return free[i % len(free)]
        n = len(self.nodes)
        self.record(['new', n, i])
        if self.contained(self.nodes[n]) or self.within(n, p):
            return None
        return n

    def record(self, op):
        at = len(self.script)
        self.script.append(op)
        self.results.append(None)
        self.stack.append(op)
        try:
            result = self.perform(op)
        finally:
            self.stack.pop()
        self.results[at] = result
        return result

    def step(self, op):
        """Decide on everything and do it."""
        what, args = op[0], op[1:]
        p = self.node(args[0])
        node = self.nodes[p]
        if what == 'new':
            return self.record(['new', len(self.nodes), args[0]])
        if what in ('add', 'setdefault', 'insert'):
            key = gen.pick(self.keys, args[1])
            if key in node.keys():
                return
            if what == 'insert' and not hasattr(node, 'insertfirst'):
                return
            child = self.free(args[2], p)
            if child is None or key in node.keys():
                # handlers were there before
                return
            op = [what, p, key, child]
            if what == 'insert':
                children = [self.number(x) for x in node.values()]
                how = args[3] if children else args[3] % 2
                op += [how, gen.pick(children, args[2]) if children else None]
            return self.record(op)
        if what in ('del', 'detach', 'pop'):
            keys = list(node.keys())
            return self.record([what, p, sorted(keys)[args[1] % len(keys)]]) \
                if keys else None
        if what == 'swap':
            children = sorted(self.number(x) for x in node.values())
            if hasattr(node, 'swap') and len(children) > 1:
                a = gen.pick(children, args[1])
                b = gen.pick(children, args[2])
                if a != b:
                    self.record(['swap', p, a, b])
            return
        if what == 'popitem':
            return self.record(['popitem', p]) if self.case['odict'] \
                or not len(node) else None
        if what in ('attr', 'delattr'):
            if 'Attributes' not in self.flags or not isinstance(
                    node, self.cls):
                return
            return self.record([what, p] + [gen.pick(
                self.keys, args[1])] + args[2:])
        if what == 'uuid':
            return self.record(['uuid', p]) if 'Reference' in self.flags \
                or 'UUIDAware' in self.flags and isinstance(
                    node, self.cls) else None
        if what == 'copy':
            return self.record(['copy', p])
        # several changes, written down as their events arrive
        if not isinstance(node, self.cls):
            return
        self.stack.append([what, p])
        try:
            if what == 'clear':
                node.clear()
            else:
                items = []
                for k, i in args[1]:
                    key = gen.pick(self.keys, k)
                    child = self.free(i, p)
                    if child is not None and key not in node.keys() \
                            and key not in [x[0] for x in items] \
                            and child not in [x[1] for x in items]:
                        items.append((key, child))
                # handlers were there before, and leave the nodes alone now
                items = [(key, child) for key, child in items
                         if key not in node.keys()
                         and not self.contained(self.nodes[child])
                         and not self.within(child, p)]
                self.quiet = True
                node.update([(k, self.nodes[c]) for k, c in items])
        except (Boom, KeyError):
            pass
        finally:
            self.quiet = False
            self.stack.pop()

    quiet = False

    def handle(self, kind, node, parent, name):
        if self.stack and self.stack[-1][0] in ('update', 'clear') \
                and kind in ('NodeAddedEvent', 'NodeRemovedEvent'):
            p = self.number(parent)
            self.script.append(
                ['add', p, name, self.number(node)]
                if kind == 'NodeAddedEvent' else ['del', p, name])
            self.results.append(('returned', None))
        handlers = self.case['handlers']
        todo = handlers[self.turn % len(handlers)]
        self.turn += 1
        if len(self.depths) >= self.case['depth'] or self.quiet:
            return
        self.depths.append(None)
        fail_ = False
        try:
            for op in todo:
                if self.count > LIMIT:
                    break
                self.count += 1
                self.nested += 1
                if op[0] == 'raise':
                    fail_ = True
                elif op[0] == 'it':
                    self.again(kind, node, parent, name)
                else:
                    self.step(op)
        finally:
            self.depths.pop()
        if fail_:
            self.ctx.label('raise')
            raise Boom()

    def again(self, kind, node, parent, name):
        """Undo what was notified."""
        n, p = self.number(node), self.number(parent)
        if kind == 'NodeAddedEvent' and parent.get(name) is node:
            self.record(['detach', p, name])
            self.ctx.label('undone')
        elif kind in ('NodeRemovedEvent', 'NodeDetachedEvent') \
                and name not in parent.keys() \
                and not self.contained(node) \
                and not self.within(n, p):
            self.record(['add', p, name, n])
            self.ctx.label('undone')

    def run(self):
        self.depths = []
        self.count = 0


class Second(World):
    """Everything in the order it was written down."""


def run(case, ctx):
    first, second = First(case, ctx), Second(case, ctx)
    done = 0
    seen = 0
    try:
        for op in [['new', 1], ['new', 1]] + case['ops']:
            first.run()
            del first.stack[:]
            lifelog.install(first.hook)
            if first.nodes:
                first.step(op)
            else:
                first.record(['new', 0, 1])
            lifelog.install(second.hook)
            while done < len(first.script):
                result = second.perform(first.script[done])
                if first.results[done] != 'boom':
                    eq(first.results[done], result, 'result of %s within %s'
                       % (first.script[done], op))
                done += 1
            what = ' after %s, in order: %s' % (op, first.script[-6:])
            for got, want in zip(first.log[seen:], second.log[seen:]):
                eq(got, want, 'event' + what)
            eq(len(first.log), len(second.log), 'number of events' + what)
            seen = len(first.log)
            a, b = first.snapshot(), second.snapshot()
            if a != b:
                for i, (x, y) in enumerate(zip(a, b)):
                    eq(x, y, 'node %d%s' % (i, what))
                fail('nodes differ')
            ctx.label(op[0])
    finally:
        lifelog.install()
    ctx.hit(first.nested > 2 and len(first.log) > 4)


PROP = Prop(
    'P46', [Sub('handlers', cases, run, 12000)],
    rule='Histories on the trees of a random lifecycle aware composition; '
         'the handlers of the events change the same trees (also undo what '
         'was notified, or fail), up to three deep. The same changes one '
         'after the other on other nodes, without handlers, must give the '
         'same results, events and trees, uuid lookups included. '
         'Non-trivial: more than two changes by handlers, more than four '
         'events.',
    assumptions=['Lifecycle is above the behaviors that store and adopt, as '
                 'documented', 'handlers leave children alone while several '
                 'are added by one update'])
