# -*- coding: utf-8 -*-
"""Drives one node and one plain dict with the same mapping operations."""
from hypothesis import strategies as st

from vt.core import Violation, check, eq, fail, raises, same, short
from vt.gen import dk, idx, is_ns, op

UPDATE_FORMS = ['dict', 'pairs', 'gen', 'kw', 'both', 'none', 'node', 'odict',
                'items', 'fail', 'broken']


def map_ops(forms=UPDATE_FORMS, fill=40):
    """Strategies of operations understood by ``MapDriver.step``."""
    k, v = idx, idx
    return [
        (5, op('set', k, v)),
        (3, op('del', k)),
        (1, op('get', k, st.sampled_from(['none', 'default']))),
        (2, op('pop', k, st.sampled_from(['raise', 'none', 'default',
                                         'same']))),
        (2, op('popitem')),
        (3, op('setdefault', k, v)),
        (2, op('update', st.sampled_from(forms),
               st.lists(st.tuples(k, v).map(list), max_size=4))),
        (1, op('clear')),
        (1, op('toomany')),
        (1, op('unhashable', v, st.integers(0, 7))),
        (1, op('fill', st.integers(1, fill))),
    ]


class Interrupted(Exception):
    pass


class MapDriver(object):
    """
    :param node: the node under test.
    :param keys: the keys operations refer to by index.
    :param factory: callable(i) returning a new value.
    :param ordered: whether the node keeps insertion order.
    :param typed: compare key types as well.
    """

    def __init__(self, node, keys, factory, ordered, ctx, typed=True,
                 node_factory=None, reuse=True, overwrite=True, keymap=None,
                 raw=False):
        self.node = node
        self.keymap = keymap or (lambda key: key)
        self.keys = [self.keymap(dk(key)) for key in keys]
        self.factory = factory
        self.ordered = ordered
        self.ctx = ctx
        self.typed = typed
        self.model = {}
        self.removed = []
        self.node_factory = node_factory
        self.reuse = reuse
        self.overwrite = overwrite
        self.raw = raw
        self.mutations = 0

    # helpers

    def key(self, i):
        return self.keys[i % len(self.keys)]

    def value(self, i, taken=()):
        if self.reuse and i % 3 == 2:
            free = [x for x in self.removed
                    if not any(x is y for y in self.model.values())
                    and not any(x is y for y in taken)]
            if free:
                self.ctx.label('reused-value')
                return free[i % len(free)]
        return self.factory(i)

    def default(self, i):
        """Anything may be a default, also what could be a child. Only the
        marker for no default does not count as one.
        """
        from node.utils import UNSET
        if i % 5 == 3 and self.model:
            # what is there already, possibly at this very key
            res = list(self.model.values())[i % len(self.model)]
            self.ctx.label('contained default')
        else:
            res = self.factory(i) if i % 2 else object()
        return object() if res is UNSET else res

    def gone(self, value):
        self.removed.append(value)

    def model_set(self, key, value):
        if key in self.model and self.model[key] is not value:
            self.gone(self.model[key])
            self.ctx.label('overwrite')
        self.model[key] = value
        self.mutations += 1

    def model_del(self, key):
        self.gone(self.model.pop(key))
        self.mutations += 1

    def tells(self, e, key, what):
        eq(e.args, (key,), what)

    # operations

    def step(self, op, quiet=False):
        if quiet:
            getattr(self, 'do_' + op[0])(*op[1:])
            self.ctx.label(op[0], 'unread')
            return
        # what was read before is not affected by changes
        lists = [self.node.keys(), self.node.values(), self.node.items()]
        copies = [list(x) for x in lists]
        getattr(self, 'do_' + op[0])(*op[1:])
        self.ctx.label(op[0])
        for what, got, want in zip(('keys()', 'values()', 'items()'), lists,
                                   copies):
            got = list(got)
            if len(got) != len(want) or not all(
                    a is b or (isinstance(a, tuple) and a == b)
                    for a, b in zip(got, want)):
                fail('%s read before %s changed with the node', what, op[0])

    def do_set(self, k, v):
        key = self.key(k)
        if key in self.model and not self.overwrite:
            return
        value = self.again(key, v, self.value(v))
        self.node[key] = value
        self.model_set(key, value)

    def again(self, key, v, value):
        """Now and then the value which is there already."""
        if v % 7 == 6 and key in self.model:
            self.ctx.label('same-again')
            return self.model[key]
        return value

    def do_del(self, k):
        key = self.key(k)
        if key in self.model:
            del self.node[key]
            self.model_del(key)
        else:
            e = raises(KeyError, self.node.__delitem__, key)
            self.tells(e, key, 'KeyError of del')
            self.ctx.label('del-missing')

    def do_get(self, k, how):
        key = self.key(k)
        if how == 'none':
            same(self.node.get(key), self.model.get(key), 'get(%r)' % (key,))
        else:
            d = self.default(k)
            same(self.node.get(key, d), self.model.get(key, d),
                 'get(%r, d)' % (key,))

    def do_pop(self, k, how):
        key = self.key(k)
        if how == 'raise':
            if key in self.model:
                same(self.node.pop(key), self.model[key], 'pop(%r)' % (key,))
                self.model_del(key)
            else:
                e = raises(KeyError, self.node.pop, key)
                self.tells(e, key, 'KeyError of pop')
            return
        d = None if how == 'none' else self.default(k)
        if how == 'same':
            d = self.model.get(key)
            from node.utils import UNSET
            d = None if d is UNSET else d
        got = self.node.pop(key, d)
        if key in self.model:
            same(got, self.model[key], 'pop(%r, default)' % (key,))
            self.model_del(key)
        else:
            same(got, d, 'pop(%r, default) of missing key' % (key,))

    def do_popitem(self):
        if not self.model:
            raises(KeyError, self.node.popitem)
            self.ctx.label('popitem-empty')
            return
        key, value = self.node.popitem()
        if self.ordered:
            eq(key, list(self.model)[-1], 'popitem() key')
        check(key in self.model, 'popitem() gave unknown key %r', key)
        same(value, self.model[key], 'popitem() value')
        self.model_del(key)

    def do_setdefault(self, k, v):
        key = self.key(k)
        if self.raw and v % 4 == 3:
            value = None
            got = self.node.setdefault(key)
        else:
            value = self.value(v)
            got = self.node.setdefault(key, value)
        if key in self.model:
            same(got, self.model[key], 'setdefault(%r) of existing' % (key,))
        else:
            same(got, value, 'setdefault(%r) of missing' % (key,))
            self.model_set(key, value)

    def do_update(self, form, pairs):
        items = []
        for k, v in pairs:
            key = self.key(k)
            if key in self.model and not self.overwrite:
                continue
            if any(key == x[0] for x in items) and not self.overwrite:
                continue
            value = self.again(key, v, self.value(v, [x[1] for x in items]))
            items.append((key, value))
        self.update(form, items)

    def update(self, form, items):
        node = self.node
        if form == 'none':
            node.update()
            return
        if form in ('kw', 'both'):
            kw = {}
            for key, value in items:
                if isinstance(key, str) and key not in ('self', '_next'):
                    kw[key] = value
            if form == 'kw':
                node.update(**kw)
                items = list(kw.items())
            else:
                first = [x for x in items if x[0] not in kw]
                node.update(first, **kw)
                items = first + list(kw.items())
        elif form == 'pairs':
            node.update(tuple(items))
        elif form == 'items':
            node.update(dict(items).items())
            items = list(dict(items).items())
        elif form == 'gen':
            node.update(x for x in items)
        elif form in ('fail', 'broken'):
            # what was given before the source fails is there
            error = Interrupted()

            def source():
                for item in items:
                    yield item
                if form == 'fail':
                    raise error
                yield 7
            if form == 'fail':
                same(raises(Interrupted, node.update, source()), error,
                     'error of update()')
            else:
                raises((TypeError, ValueError), node.update, source())
        elif form == 'odict':
            from odict import odict
            node.update(odict(items))
            items = list(dict(items).items())
        elif form == 'node' and self.node_factory is not None:
            source = self.node_factory()
            items = list(dict(items).items())
            for key, value in items:
                source[key] = value
            node.update(source)
            eq(set(source.keys()), set(x[0] for x in items),
               'keys of the source of update()')
        else:
            node.update(dict(items))
            items = list(dict(items).items())
        for key, value in items:
            self.model_set(key, value)
        if items:
            self.ctx.label('update-' + form)

    def do_clear(self):
        self.node.clear()
        for key in list(self.model):
            self.model_del(key)

    def do_toomany(self):
        raises(TypeError, self.node.update, {}, {})

    def do_unhashable(self, v, how):
        node = self.node
        if getattr(node, 'aliaser', None) is not None:
            # aliasers of text know texts only
            return
        key = [[], {}, [1], set()][v % 4]
        value = self.factory(v)
        place = (getattr(value, '__name__', None),
                 getattr(value, '__parent__', None))
        calls = [(node.__setitem__, key, value), (node.__getitem__, key),
                 (node.__delitem__, key), (node.get, key), (node.pop, key),
                 (node.pop, key, value), (node.setdefault, key, value),
                 (node.update, [(key, value)])]
        raises(TypeError, *calls[how])
        raises(TypeError, lambda: key in node)
        if hasattr(value, '__parent__'):
            eq(value.__name__, place[0], 'name after failure')
            same(value.__parent__, place[1], 'parent after failure')

    def do_fill(self, n):
        for i in range(n):
            key = self.keymap('fill%d' % i)
            if key not in self.model:
                value = self.factory(i)
                self.node[key] = value
                self.model_set(key, value)
        self.ctx.label('large')

    # invariants

    def check(self):
        node, model = self.node, self.model
        keys = list(node.keys())
        if self.ordered:
            eq(keys, list(model), 'keys()')
        else:
            eq(len(keys), len(model), 'number of keys() %r for %r'
               % (keys, list(model)))
            eq(set(keys), set(model), 'keys()')
        if self.typed:
            for key in keys:
                for other in model:
                    if other == key:
                        same(type(key), type(other), 'type of key %r' % (key,))
        eq(list(node), keys, 'iter()')
        eq(list(node.iterkeys()), keys, 'iterkeys()')
        want = [model[key] for key in keys]
        self.identical(list(node.values()), want, 'values()')
        self.identical(list(node.itervalues()), want, 'itervalues()')
        for what, items in (('items()', list(node.items())),
                            ('iteritems()', list(node.iteritems()))):
            eq([tuple(x)[0] for x in items], keys, 'keys of ' + what)
            self.identical([tuple(x)[1] for x in items], want,
                           'values of ' + what)
        eq(len(node), len(model), 'len()')
        same(bool(node), True, 'bool()')
        d = object()
        for key in self.keys + keys[:3] + keys[-3:]:
            there = key in model
            same(key in node, there, '%r in node' % (key,))
            same(bool(node.has_key(key)), there, 'has_key(%r)' % (key,))
            if there:
                same(node[key], model[key], 'node[%r]' % (key,))
                same(node.get(key, d), model[key], 'get(%r)' % (key,))
            else:
                e = raises(KeyError, node.__getitem__, key)
                self.tells(e, key, 'KeyError of getitem')
                same(node.get(key, d), d, 'get(%r) of missing' % (key,))
                same(node.get(key), None, 'get(%r) of missing' % (key,))

    def identical(self, got, want, what):
        eq(len(got), len(want), 'number of ' + what)
        for i, (a, b) in enumerate(zip(got, want)):
            if a is not b:
                fail('%s[%d]: got %s, want the very object %s', what, i,
                     short(a), short(b))

    def drain(self):
        """Take everything out from the end."""
        while self.model:
            self.do_popitem()
        self.do_popitem()
        self.check()
