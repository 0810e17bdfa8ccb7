# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import classes, gen, lifelog
from vt.core import Prop, Sub, check, eq, fail, same

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
         'Attributes', 'Cache', 'Invalidate', 'VolatileStorageInvalidate',
         'Reference', 'Order', 'AsAttrAccess', 'UnicodeAware', 'Alias',
         'Fallback', 'Events', 'Lifecycle', 'Reference', 'Order', 'Cache']


class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


EXCS = {'KeyError': KeyError, 'ValueError': ValueError,
        'AttributeError': AttributeError, 'TypeError': TypeError,
        'RuntimeError': RuntimeError, 'OSError': OSError, 'Boom': Boom,
        'IndexError': IndexError, 'NotImplementedError': NotImplementedError,
        'AssertionError': AssertionError, 'MemoryError': MemoryError,
        'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
        'GeneratorExit': GeneratorExit, 'Interrupt': Interrupt,
        'StopIteration': StopIteration}


class Fault(object):
    """Lets the nth write access to a storage fail."""
    left = None
    exc = None
    raised = None

    def arm(self, n, exc):
        self.left = n
        self.exc = exc
        self.raised = None

    def disarm(self):
        self.left = None

    def access(self, key):
        if self.left is None:
            return
        if self.left == 0:
            self.left = None
            self.raised = EXCS[self.exc](key)
            raise self.raised
        self.left -= 1


def storages():
    from odict import odict

    class FaultyDict(dict):
        fault = None

        def __setitem__(self, key, value):
            self.fault.access(key)
            dict.__setitem__(self, key, value)

        def __delitem__(self, key):
            self.fault.access(key)
            dict.__delitem__(self, key)

    class FaultyOdict(odict):
        fault = None

        def __setitem__(self, key, value):
            if self.fault:
                self.fault.access(key)
            odict.__setitem__(self, key, value)

        def __delitem__(self, key):
            self.fault.access(key)
            odict.__delitem__(self, key)

        def insertbefore(self, ref, key, value):
            self.fault.access(key)
            odict.insertbefore(self, ref, key, value)

        def insertafter(self, ref, key, value):
            self.fault.access(key)
            odict.insertafter(self, ref, key, value)

        def swap(self, a, b):
            self.fault.access(a)
            odict.swap(self, a, b)
    return FaultyDict, FaultyOdict


def storage_property(factory):
    def storage(self):
        res = self.__dict__.get('faulty_storage')
        if res is None:
            res = self.__dict__['faulty_storage'] = factory()
            res.fault = self.__dict__.setdefault('fault', Fault())
        return res
    return property(storage)


_dict, _odict = storages()
DICT, ODICT = storage_property(_dict), storage_property(_odict)
# one property object each, so that composed classes are cached

WRITES = ['set', 'setdefault', 'update', 'kw', 'insertfirst', 'insertlast',
          'insertbefore', 'insertafter']
DELS = ['del', 'pop', 'popdefault', 'popitem', 'detach']


def cases(tier):
    fault = gen.one_of(
        st.just([]),
        st.tuples(st.integers(0, 2), st.sampled_from(sorted(EXCS))).map(list),
        st.tuples(st.just(0), st.sampled_from(sorted(EXCS))).map(list))
    ops = [
        (6, gen.op('write', st.sampled_from(WRITES), gen.idx, st.integers(0, 8),
                   gen.idx, fault)),
        (5, gen.op('delete', st.sampled_from(DELS), gen.idx, fault)),
        (1, gen.op('clear', fault)),
        (2, gen.op('swap', gen.idx, gen.idx, fault)),
        (1, gen.op('many', st.lists(gen.idx, min_size=2, max_size=4), fault)),
    ]
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(FLAGS), max_size=9),
        'odict': st.booleans(),
        'reads': gen.reads(),
        'keys': gen.pool(gen.names(), min_size=2, max_size=6),
        'ops': gen.one_of(
            gen.ops(*ops, max_size=10),
            gen.ops(*ops, min_size=5, max_size=gen.size(tier, 18, 50))),
    })


class Driver(object):

    def __init__(self, case, ctx):
        flags = set(case['flags']) | {'Adopt'}
        if 'Order' in flags:
            case['odict'] = True
        storage = 'OdictStorage' if case['odict'] else 'DictStorage'
        self.cls = classes.compose(
            sorted(flags), storage,
            (('storage', ODICT if case['odict'] else DICT),))
        flags = set(classes.normalize(flags))
        self.flags = flags
        self.reference = 'Reference' in flags
        self.order = 'Order' in flags
        self.events = 'Lifecycle' in flags
        self.ordered = case['odict']
        self.ctx = ctx
        self.keys = case['keys']
        self.model = {}
        self.removed = []
        self.root = self.cls(name='root')
        self.box = self.root['box'] = self.cls()
        self.box.storage
        self.fault = self.box.fault
        self.fired = 0
        self.after = 0
        ctx.label(*flags)
        lifelog.install()

    def key(self, i):
        return self.keys[i % len(self.keys)]

    def new(self, v):
        """New node, subtree, or a removed node."""
        if v >= 7:
            free = [x for x in self.removed
                    if not any(x is y for y in self.model.values())]
            if free:
                return gen.pick(free, v)
        node = self.cls(name=[None, 'old'][v % 2])
        if v % 3 == 2:
            node['sub'] = self.cls()
            node['sub']['leaf'] = self.cls()
        lifelog.take()
        return node

    def snapshot(self, nodes):
        return [(x, x.__name__, x.__parent__, list(x.keys()),
                 [(y, y.__parent__) for y in x.values()]) for x in nodes]

    def unchanged(self, snapshot):
        for node, name, parent, keys, children in snapshot:
            eq(node.__name__, name, 'name after failure')
            same(node.__parent__, parent, 'parent after failure')
            eq(list(node.keys()), keys, 'keys after failure')
            for (child, up), got in zip(children, node.values()):
                same(got, child, 'child after failure')
                same(child.__parent__, up, 'parent of child after failure')

    def attempt(self, func, fault, incoming=(), lenient=()):
        """Run func under a fault; True if it succeeded."""
        before = self.snapshot(list(incoming) + list(self.model.values()))
        lifelog.take()
        if fault:
            self.fault.arm(*fault)
        try:
            func()
        except BaseException as e:
            raised = self.fault.raised
            self.fault.disarm()
            self.fault.raised = None
            if raised is None:
                raise
            if e is not raised:
                wrapped = isinstance(raised, KeyError) and (
                    'Alias' in self.flags and isinstance(e, KeyError)
                    or isinstance(e, ValueError) and 'order' in lenient)
                if not wrapped:
                    fail('storage raised %r but caller got %r', raised, e)
            self.fired += 1
            self.ctx.label('fault-' + fault[1])
            return False, before
        raised = self.fault.raised
        self.fault.disarm()
        self.fault.raised = None
        if raised is not None:
            fail('failure of storage %r was swallowed', raised)
        if self.fired:
            self.after += 1
        return True, before

    def events_of(self, number, name):
        if not self.events:
            return
        got = [type(e).__name__ for e, ob in lifelog.take()]
        eq(got, [name] * number, 'events of succeeding operation')

    def detached_index(self, nodes):
        if not self.reference:
            return
        for node in nodes:
            same(node.node(node.uuid), node, 'own index of refused node')
            same(node.node(self.root.uuid), None, 'index of refused node')
            same(self.root.node(node.uuid), None,
                 'tree index after refusal')
            for child in node.values():
                same(node.node(child.uuid), child, 'index of refused subtree')
                same(child.node(node.uuid), node, 'index of refused subtree')
                same(self.box.node(child.uuid), None, 'tree index')

    # operations

    def do_write(self, how, k, v, r, fault):
        key = self.key(k)
        box = self.box
        exists = key in self.model
        if exists and (how.startswith('insert') or self.reference):
            return
        if how.startswith('insert') and not self.order or \
                how == 'kw' and key in ('self', '_next'):
            how = 'set'
        if how in ('insertbefore', 'insertafter') and not self.model:
            how = 'insertlast'
        if how == 'setdefault' and exists:
            return
        node = self.new(v)
        index = len(self.model)
        if how == 'set':
            def func():
                box[key] = node
        elif how == 'setdefault':
            def func():
                box.setdefault(key, node)
        elif how == 'update':
            def func():
                box.update([(key, node)])
        elif how == 'kw':
            def func():
                box.update(**{key: node})
        elif how in ('insertfirst', 'insertlast'):
            node.__name__ = key
            index = 0 if how == 'insertfirst' else index

            def func():
                getattr(box, how)(node)
        else:
            node.__name__ = key
            ref = gen.pick(list(self.model.values()), r)
            index = list(self.model.values()).index(ref) \
                + (how == 'insertafter')

            def func():
                getattr(box, how)(node, ref)
        ok, before = self.attempt(
            func, fault, [node],
            ['order'] if how.startswith('insert') else [])
        if not ok:
            self.ctx.label('failed-' + how)
            self.unchanged(before)
            self.detached_index([node])
            self.check()
            if v % 2:
                return
            func()      # try again without fault
            self.after += 1
            lifelog.take()
        else:
            self.events_of(1, 'NodeAddedEvent')
        if exists:
            self.removed.append(self.model[key])
            self.model[key] = node
        else:
            items = list(self.model.items())
            items.insert(index, (key, node))
            self.model = dict(items)
        eq(node.__name__, key, 'name of added node')
        same(node.__parent__, box, 'parent of added node')
        if self.reference:
            same(self.root.node(node.uuid), node, 'index of added node')

    def do_delete(self, how, k, fault):
        key = self.key(k)
        box = self.box
        if key not in self.model:
            return
        if fault and fault[1] == 'KeyError' and how == 'popdefault':
            how = 'pop'
        popped = []
        if how == 'del':
            def func():
                del box[key]
        elif how == 'pop':
            def func():
                box.pop(key)
        elif how == 'popdefault':
            def func():
                box.pop(key, None)
        elif how == 'detach':
            def func():
                box.detach(key)
        else:
            def func():
                popped.append(box.popitem()[0])
        ok, before = self.attempt(func, fault)
        if not ok:
            self.ctx.label('failed-' + how)
            self.unchanged(before)
            self.check()
            if k % 2:
                return
            func()
            self.after += 1
            lifelog.take()
        else:
            self.events_of(1, 'NodeDetachedEvent' if how == 'detach'
                           else 'NodeRemovedEvent')
        if popped:
            key = popped[0]
            if self.ordered:
                eq(key, list(self.model)[-1], 'popitem() key')
        self.removed.append(self.model.pop(key))

    def do_clear(self, fault):
        ok, before = self.attempt(self.box.clear, fault)
        if ok:
            self.events_of(len(self.model), 'NodeRemovedEvent')
            done = len(self.model)
        else:
            self.ctx.label('failed-clear')
            done = fault[0]
            self.unchanged(before)
        if not ok and not self.ordered:
            # any of the children may have been deleted
            left = list(self.box.keys())
            eq(len(left), len(self.model) - done, 'children left by clear()')
            gone = [x for x in self.model if x not in left]
        else:
            gone = list(self.model)[:done]
        for key in gone:
            self.removed.append(self.model.pop(key))

    def do_many(self, keys, fault):
        items = []
        for k in keys:
            key = self.key(k)
            if key not in self.model and key not in [x[0] for x in items]:
                items.append((key, self.new(k % 7)))
        ok, before = self.attempt(lambda: self.box.update(items), fault,
                                  [x[1] for x in items])
        done = items if ok else items[:fault[0]]
        if ok:
            self.events_of(len(items), 'NodeAddedEvent')
        else:
            self.ctx.label('failed-many')
            self.unchanged([x for x in before
                            if not any(x[0] is y[1] for y in done)])
            self.detached_index([x[1] for x in items[fault[0]:]])
        for key, node in done:
            self.model[key] = node

    def do_swap(self, a, b, fault):
        if not self.order or len(self.model) < 2:
            return
        keys = list(self.model)
        a, b = keys[a % len(keys)], keys[b % len(keys)]
        if a == b:
            return
        ok, before = self.attempt(
            lambda: self.box.swap(self.model[a], self.model[b]), fault)
        if ok:
            items = list(self.model.items())
            i, j = keys.index(a), keys.index(b)
            items[i], items[j] = items[j], items[i]
            self.model = dict(items)
        else:
            self.unchanged(before)

    def check(self):
        box, model = self.box, self.model
        keys = list(box.keys())
        if self.ordered:
            eq(keys, list(model), 'keys()')
        else:
            eq(sorted(keys), sorted(model), 'keys()')
        eq(len(box), len(model), 'len()')
        for key, node in model.items():
            same(box[key], node, 'child %r' % key)
            eq(node.__name__, key, 'name of child')
            same(node.__parent__, box, 'parent of child')
            if self.reference:
                same(self.root.node(node.uuid), node, 'indexed child')
                same(node.node(self.root.uuid), self.root, 'index of child')
                for sub in node.values():
                    same(self.root.node(sub.uuid), sub, 'indexed grandchild')
        for key in self.keys:
            if key not in model:
                same(key in box, False, '%r in box' % key)
        if self.reference:
            for node in self.removed:
                if not any(node is x for x in model.values()):
                    same(self.root.node(node.uuid), None, 'removed node')


def run(case, ctx):
    driver = Driver(case, ctx)
    for i, op in enumerate(case['ops']):
        getattr(driver, 'do_' + op[0])(*op[1:])
        if gen.due(case, i):
            driver.check()
    driver.check()
    ctx.hit(driver.fired >= 1 and driver.after >= 1)


PROP = Prop(
    'P06', [Sub('faults', cases, run, 24000)],
    rule='Histories of 8 kinds of additions, 5 kinds of removals, clear, '
         'swap and bulk update on a node of a random composition whose '
         'storage fails at a chosen write with one of 16 exception types (interrupts included), '
         'state compared with the model after each or only some steps, failing operations '
         'partly tried again. Non-trivial: at least one fault fired and one '
         'later operation succeeded.',
    assumptions=['a failing storage access has no effect itself',
                 'KeyError on deletion in pop() with default means missing '
                 'key'])
