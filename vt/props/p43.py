# -*- coding: utf-8 -*-
import functools

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same
from vt.mapmodel import MapDriver, map_ops

PREFIX = 'p-'


def make_recorder(number):
    """A plumbing behavior which sees what passes its place."""
    from plumber import Behavior, plumb

    class Recorder(Behavior):

        @plumb
        def __setitem__(_next, self, key, value):
            record(self, number, 'set', key, value)
            _next(self, key, value)

        @plumb
        def __delitem__(_next, self, key):
            record(self, number, 'del', key)
            _next(self, key)
    return Recorder


def record(node, number, *entry):
    log = node.__dict__.get('log')
    if log is not None:
        log.setdefault(number, []).append(entry)


def mixin(base, number):
    """The same by subclassing."""

    def __setitem__(self, key, value):
        record(self, number, 'set', key, value)
        super(cls, self).__setitem__(key, value)

    def __delitem__(self, key):
        record(self, number, 'del', key)
        super(cls, self).__delitem__(key)
    cls = type('Overriding', (base,), dict(__setitem__=__setitem__,
                                           __delitem__=__delitem__))
    return cls


@functools.lru_cache(500)
def recorded(names, places, subclass):
    import node.behaviors as b
    from plumber import plumbing
    chain = [getattr(b, x) for x in names]
    for n, place in enumerate(places):
        # as many below as given, never below the storage
        at = max(0, len(chain) - 1 - place)
        chain.insert(at, make_recorder(n))
    cls = plumbing(*chain)(type('Recorded', (object,), {}))
    if subclass:
        cls = mixin(cls, 'sub')
    return cls, [x.__name__ for x in chain]


def chain_cases(tier):
    k = gen.idx
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(classes.CANONICAL[:-2]),
                          max_size=8, unique=True),
        'odict': st.sampled_from([True, True, False]),
        'places': st.lists(st.integers(0, 12), min_size=1, max_size=3),
        'subclass': st.booleans(),
        'prefix': st.booleans(),
        'raw': st.booleans(),
        'keys': gen.pool(gen.anykeys()),
        'reads': gen.reads(),
        'ops': gen.ops(*map_ops(fill=16) + [
            (2, gen.op('detach', k)), (2, gen.op('inval', k)),
            (1, gen.op('invalall')),
            (4, gen.op('insert', k, k, st.integers(0, 3))),
            (2, gen.op('swap', k, k))],
            min_size=2, max_size=gen.size(tier, 18, 50))})


VALUES = [None, 0, '', 'text', [1], False, dict, 0.0]


def make_factory(case, names, ctx):
    child = classes.shipped('Node' if 'Reference' in names else 'BaseNode')
    falsy = type('Falsy', (child,), {'__bool__': lambda self: False})
    raw = case['raw'] and 'NodeChildValidate' not in names

    def factory(i):
        if raw and i % 3 == 1:
            ctx.label('value')
            return VALUES[i // 3 % len(VALUES)]
        return falsy() if i % 4 == 2 else child()
    return factory, raw


class ChainDriver(MapDriver):

    def changes(self):
        """Model of what must have passed."""
        res, self.expected = self.expected, []
        return res

    expected = ()

    def model_set(self, key, value):
        self.expected.append(('set', key, value))
        MapDriver.model_set(self, key, value)

    def model_del(self, key):
        self.expected.append(('del', key))
        MapDriver.model_del(self, key)

    def do_detach(self, k):
        key = self.key(k)
        if key in self.model and hasattr(self.model[key], 'treerepr'):
            same(self.node.detach(key), self.model[key], 'detach()')
            self.model_del(key)

    def do_inval(self, k):
        if not hasattr(self.node, 'invalidate'):
            return
        key = self.key(k)
        if key in self.model:
            self.node.invalidate(key)
            self.invalidated([key])

    def do_invalall(self):
        if hasattr(self.node, 'invalidate'):
            self.node.invalidate()
            self.invalidated(list(self.model))

    def invalidated(self, keys):
        for key in keys:
            if 'VolatileStorageInvalidate' in self.names:
                # volatile storages forget, which is no deletion
                self.model.pop(key)
            else:
                self.model_del(key)

    def do_insert(self, k, r, how):
        key = self.key(k)
        if 'Order' not in self.names or key in self.model:
            return
        value = self.value(1)
        if not hasattr(value, 'treerepr'):
            return
        value.__name__ = key
        keys = list(self.model)
        if not keys or how < 2:
            getattr(self.node, ['insertfirst', 'insertlast'][how % 2])(value)
            at = 0 if how % 2 == 0 else len(keys)
        else:
            ref = keys[r % len(keys)]
            if not hasattr(self.model[ref], 'treerepr'):
                return
            if self.model[ref].name != ref:
                return
            at = keys.index(ref) + how - 2
            getattr(self.node, ['insertbefore', 'insertafter'][how - 2])(
                value, self.model[ref])
        self.model_set(key, value)
        items = list(self.model.items())
        items.insert(at, items.pop())
        self.model = dict(items)
        self.ctx.label('inserted')

    def do_swap(self, i, j):
        if 'Order' not in self.names or len(self.model) < 2:
            return
        items = list(self.model.items())
        a, b = i % len(items), j % len(items)
        if a == b or any(getattr(items[x][1], 'name', None) != items[x][0]
                         for x in (a, b)):
            return
        self.node.swap(items[a][1], items[b][1])
        items[a], items[b] = items[b], items[a]
        self.model = dict(items)


def run_chain(case, ctx):
    flags = list(case['flags'])
    if not case['odict'] and 'Order' in flags:
        flags.remove('Order')
    if 'Order' in flags and 'Adopt' not in flags:
        # nodes are found by their names
        flags.append('Adopt')
    names = classes.normalize(flags)
    if 'VolatileStorageInvalidate' in names and 'Reference' in names:
        # volatile storage does not know about the index
        names.remove('Reference')
    names.append('OdictStorage' if case['odict'] else 'DictStorage')
    cls, chain = recorded(tuple(names), tuple(case['places']),
                          case['subclass'])
    node = cls(name='node')
    keys, keymap = case['keys'], None
    if 'Alias' in names and case['prefix']:
        from node.behaviors.alias import PrefixAliaser
        node = classes.placed(cls, len(case['ops']),
                              aliaser=PrefixAliaser(PREFIX))
        keys = gen.distinct([str(gen.dk(key)) for key in keys])
        keymap = PREFIX.__add__
        ctx.label('prefixed')
    places = {}
    at = [i for i, x in enumerate(chain) if x == 'Alias']
    n = len([x for x in chain if x == 'Recorder'])
    # recorders are numbered in the order they were put in
    order = recorder_order(names, case['places'])
    for i, number in zip([i for i, x in enumerate(chain)
                          if x == 'Recorder'], order):
        places[number] = bool(keymap and at and i > at[0])
    eq(len(places), n, 'harness: recorders')
    if case['subclass']:
        places['sub'] = False
    factory, raw = make_factory(case, names, ctx)
    driver = ChainDriver(node, keys, factory, case['odict'], ctx,
                         keymap=keymap, reuse=not raw, raw=raw,
                         overwrite='Reference' not in names)
    driver.names = names
    driver.expected = []
    total = 0
    for i, op in enumerate(case['ops']):
        node.log = {}
        driver.changes()
        failing = op[0] == 'unhashable' or op[0] == 'toomany'
        driver.step(op, True)
        want = driver.changes()
        log, node.log = node.log, None
        del node.log
        if failing:
            continue
        for number, below in sorted(places.items(), key=repr):
            got = log.get(number, [])
            if not want:
                # what fails need not get far
                got = [] if op[0] in ('del', 'pop', 'detach') else got
            compare(got, want, below, driver.ordered, op, number)
        total += len(want)
        ctx.label(op[0])
        if gen.due(case, i):
            driver.check()
    driver.check()
    ctx.hit(total >= 3)


def recorder_order(names, places):
    """Numbers of the recorders from outside to inside."""
    chain = list(names)
    for n, place in enumerate(places):
        chain.insert(max(0, len(chain) - 1 - place), n)
    return [x for x in chain if isinstance(x, int)]


def compare(got, want, below, ordered, op, number):
    what = 'what passes recorder %s on %s' % (number, op)
    if below:
        want = [(x[0], x[1][len(PREFIX):]) + x[2:] for x in want]
    if op[0] in ('clear', 'invalall') and not ordered:
        got, want = sorted(got, key=repr), sorted(want, key=repr)
    eq([x[:2] for x in got], [x[:2] for x in want], what)
    for a, b in zip(got, want):
        eq(type(a[1]), type(b[1]), 'type of the key of ' + what)
        if a[0] == 'set':
            same(a[2], b[2], 'value of ' + what)


# ---------------------------------------------------------------------------
# storages which have nothing but the four methods

STORAGES = ['pairs', 'boxes', 'hiding', 'falling', 'silent', 'text', 'copying',
            'private', 'marked']


class Box(object):

    def __init__(self, value):
        self.value = value


def storage_behavior(kind):
    from node.behaviors import DictStorage, OdictStorage
    from plumber import Behavior, override

    def pairs(self):
        return self.__dict__.setdefault('pairs', [])

    class Pairs(Behavior):
        """A list of pairs, like rows of a table."""

        @override
        def __getitem__(self, key):
            for k, v in pairs(self):
                if k == key:
                    return v
            raise KeyError(key)

        @override
        def __setitem__(self, key, value):
            rows = pairs(self)
            for i, (k, v) in enumerate(rows):
                if k == key:
                    rows[i] = (k, value)
                    return
            rows.append((key, value))

        @override
        def __delitem__(self, key):
            self[key]
            rows = pairs(self)
            rows[:] = [x for x in rows if x[0] != key]

        @override
        def __iter__(self):
            for k, v in list(pairs(self)):
                yield k

    class Boxes(Behavior):
        """Stores something else than what is given."""

        @override
        def __getitem__(self, key):
            return self.__dict__.setdefault('boxes', {})[key].value

        @override
        def __setitem__(self, key, value):
            self.__dict__.setdefault('boxes', {})[key] = Box(value)

        @override
        def __delitem__(self, key):
            del self.__dict__.setdefault('boxes', {})[key]

        @override
        def __iter__(self):
            return iter(list(self.__dict__.setdefault('boxes', {})))

    class Hiding(Behavior):
        """There are more items in the storage than there are children."""

        @override
        def __getitem__(self, key):
            if isinstance(key, Secret):
                raise KeyError(key)
            return data(self)[key]

        @override
        def __setitem__(self, key, value):
            data(self)[key] = value

        @override
        def __delitem__(self, key):
            if isinstance(key, Secret):
                raise KeyError(key)
            del data(self)[key]

        @override
        def __iter__(self):
            return (x for x in list(data(self)) if not isinstance(x, Secret))

    class Secret(object):
        pass

    def data(self):
        if 'data' not in self.__dict__:
            self.__dict__['data'] = {Secret(): 1, Secret(): None}
        return self.__dict__['data']

    class Falling(Boxes):
        """Other errors are key errors, too."""

        @override
        def __getitem__(self, key):
            try:
                return self.__dict__.setdefault('boxes', {})[key].value
            except KeyError:
                raise Missing(key)

        @override
        def __delitem__(self, key):
            try:
                del self.__dict__.setdefault('boxes', {})[key]
            except KeyError:
                raise Missing(key)

    class Silent(Boxes):
        """Errors do not tell the key."""

        @override
        def __getitem__(self, key):
            try:
                return self.__dict__.setdefault('boxes', {})[key].value
            except KeyError:
                raise KeyError()

        @override
        def __delitem__(self, key):
            try:
                del self.__dict__.setdefault('boxes', {})[key]
            except KeyError:
                raise KeyError('none', 'such')

    class Private(DictStorage):
        """Not all of the storage is for all."""

        @override
        def __getitem__(self, key):
            if isinstance(key, Secret):
                raise KeyError(key)
            return secrets(self)[key]

        @override
        def __setitem__(self, key, value):
            secrets(self)[key] = value

        @override
        def __delitem__(self, key):
            del secrets(self)[key]

        @override
        def __iter__(self):
            return iter([x for x in secrets(self)
                         if not isinstance(x, Secret)])

    def secrets(self):
        if not any(isinstance(x, Secret) for x in self.storage):
            self.storage[Secret()] = None
        return self.storage

    class Marked(OdictStorage):
        """The storage has other keys and values."""

        @override
        def __getitem__(self, key):
            try:
                return self.storage[(key, 1)].value
            except KeyError:
                raise KeyError(key)

        @override
        def __setitem__(self, key, value):
            self.storage[(key, 1)] = Box(value)

        @override
        def __delitem__(self, key):
            try:
                del self.storage[(key, 1)]
            except KeyError:
                raise KeyError(key)

        @override
        def __iter__(self):
            return iter([x[0] for x in self.storage])

    class Text(Behavior):
        """Keys of the storage are others than those of the node."""

        @override
        def __getitem__(self, key):
            try:
                return self.__dict__.setdefault('rows', {})[repr(key)][1]
            except KeyError:
                raise KeyError(key)

        @override
        def __setitem__(self, key, value):
            rows = self.__dict__.setdefault('rows', {})
            key, value = rows.get(repr(key), (key,))[0], value
            rows[repr(key)] = (key, value)

        @override
        def __delitem__(self, key):
            try:
                del self.__dict__.setdefault('rows', {})[repr(key)]
            except KeyError:
                raise KeyError(key)

        @override
        def __iter__(self):
            return iter([k for k, v in
                         self.__dict__.setdefault('rows', {}).values()])

    class Copying(Behavior):
        """Each change makes a new dictionary."""

        @override
        def __getitem__(self, key):
            return self.__dict__.get('now', {})[key]

        @override
        def __setitem__(self, key, value):
            self.now = dict(self.__dict__.get('now', {}), **{})
            self.now[key] = value

        @override
        def __delitem__(self, key):
            now = dict(self.__dict__.get('now', {}))
            del now[key]
            self.now = now

        @override
        def __iter__(self):
            return iter(self.__dict__.get('now', {}))
    return dict(pairs=Pairs, boxes=Boxes, hiding=Hiding, falling=Falling,
                text=Text, copying=Copying, silent=Silent, private=Private,
                marked=Marked)[kind]


class Missing(KeyError):
    pass


@functools.lru_cache(500)
def on_storage(names, kind, way):
    import node.behaviors as b
    from plumber import plumbing
    behaviors = [getattr(b, x) for x in names]
    if way == 'plumbed':
        return plumbing(*behaviors + [storage_behavior(kind)])(
            type('Stored', (object,), {}))
    if way == 'base':
        base = plumbing(storage_behavior(kind))(type('Base', (object,), {}))
        return plumbing(*behaviors)(type('Stored', (base,), {}))
    # methods of the class itself
    behavior = storage_behavior(kind)
    methods = {}
    base = plumbing(behavior)(type('Base', (object,), {}))
    names = ['__getitem__', '__setitem__', '__delitem__', '__iter__']
    if hasattr(base, 'storage'):
        names.append('storage')
    for name in names:
        methods[name] = base.__dict__[name]
    return plumbing(*behaviors)(type('Stored', (object,), methods))


def storage_cases(tier):
    # others work on dictionaries as storage
    flags = [x for x in classes.CANONICAL[:-2]
             if x not in ('VolatileStorageInvalidate', 'Order')]
    return st.fixed_dictionaries({
        'flags': st.lists(st.sampled_from(flags), max_size=7, unique=True),
        'storage': st.sampled_from(STORAGES),
        'way': st.sampled_from(['plumbed', 'plumbed', 'base', 'class']),
        'raw': st.booleans(),
        'keys': gen.pool(gen.anykeys()),
        'reads': gen.reads(),
        'ops': gen.ops(*map_ops(fill=16), min_size=2,
                       max_size=gen.size(tier, 20, 50))})


class StorageDriver(MapDriver):
    told = True

    def tells(self, e, key, what):
        if self.told:
            MapDriver.tells(self, e, key, what)

    def do_unhashable(self, v, how):
        # storages may know any keys
        pass


def run_storage(case, ctx):
    names = classes.normalize(case['flags'])
    cls = on_storage(tuple(names), case['storage'], case['way'])
    node = cls(name='node')
    factory, raw = make_factory(case, names, ctx)
    keys = case['keys']
    if case['storage'] == 'text':
        # keys which are equal are the same row
        keys = gen.distinct([str(gen.dk(x)) for x in keys])
    driver = StorageDriver(node, keys, factory, True, ctx,
                           node_factory=None if raw
                           else classes.shipped('OrderedNode'),
                           reuse=not raw, raw=raw, overwrite='Reference' not in names)
    driver.told = case['storage'] != 'silent'
    for i, op in enumerate(case['ops']):
        due = gen.due(case, i)
        driver.step(op, not due)
        if due:
            driver.check()
    driver.check()
    if 'Adopt' in names:
        for key, value in driver.model.items():
            if not hasattr(value, 'treerepr'):
                continue
            same(value.parent, node, 'parent of child')
            eq(value.name, key, 'name of child')
    ctx.label(case['storage'], case['way'])
    ctx.hit(driver.mutations >= 2)
    driver.drain()


PROP = Prop(
    'P43', [Sub('chain', chain_cases, run_chain, 16000),
            Sub('storages', storage_cases, run_storage, 14000)],
    rule='Mapping and ordering histories on random compositions with up to '
         'three recording behaviors at random places of the plumbing and '
         'possibly an overriding subclass: what passes each of them is '
         'compared with the changes of the model. Mapping histories on 9 '
         'kinds of storages which have nothing but the four item methods, '
         'as behavior, base class or methods of the class, below random '
         'compositions. Non-trivial: three changes passed; two mutations.',
    assumptions=['behaviors are plumbed in the documented order',
                 'what has to pass on operations which fail is not judged',
                 'VolatileStorageInvalidate and Order work on storages which '
                 'are dictionaries'])
