# -*- coding: utf-8 -*-
"""Broken mappings are generated by replacing methods of conforming ones."""
from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same
from vt.props.p02 import composition

CONTRACT = [
    '__setitem__', '__getitem__', 'get', '__iter__', 'keys', 'iterkeys',
    'values', 'itervalues', 'items', 'iteritems', '__contains__', 'has_key',
    '__len__', 'update', '__delitem__', 'copy', 'setdefault', 'pop',
    'popitem', 'clear']

ERRORS = [KeyError, ValueError, TypeError, AttributeError,
          NotImplementedError, RuntimeError, IndexError, Exception]


class Mapping(object):
    """Conforming mapping, no method uses another one."""

    def __init__(self, name=None, parent=None):
        self.data = {}
        self.__name__ = name
        self.__parent__ = parent

    def __bool__(self):
        return True

    def store(self, key, value):
        value.__name__ = key
        value.__parent__ = self
        self.data[key] = value

    def __setitem__(self, key, value):
        self.store(key, value)

    def __getitem__(self, key):
        return self.data[key]

    def get(self, key, default=None):
        return self.data.get(key, default)

    def __iter__(self):
        return iter(list(self.data))

    def keys(self):
        return list(self.data)

    def iterkeys(self):
        return iter(list(self.data))

    def values(self):
        return list(self.data.values())

    def itervalues(self):
        return iter(list(self.data.values()))

    def items(self):
        return list(self.data.items())

    def iteritems(self):
        return iter(list(self.data.items()))

    def __contains__(self, key):
        return key in self.data

    def has_key(self, key):
        return key in self.data

    def __len__(self):
        return len(self.data)

    def update(*args, **kw):
        self = args[0]
        if len(args) > 2:
            raise TypeError('at most one positional argument')
        for data in args[1:]:
            for key, value in dict(getattr(data, 'data', data)).items():
                self.store(key, value)
        for key, value in kw.items():
            self.store(key, value)

    def __delitem__(self, key):
        del self.data[key]

    def copy(self):
        res = self.__class__(self.__name__, self.__parent__)
        res.data.update(self.data)
        return res

    def setdefault(self, key, default=None):
        if key not in self.data:
            self.store(key, default)
        return self.data[key]

    def pop(self, key, *default):
        return self.data.pop(key, *default)

    def popitem(self):
        return self.data.popitem()

    def clear(self):
        self.data.clear()


# Misbehaviors: functions building the broken method of a correct one.

def lose(f):
    return lambda self: iter(list(f(self))[1:])


def lose_list(f):
    return lambda self: list(f(self))[1:]


def twice(f):
    def broken(self):
        res = list(f(self))
        return iter(res[:1] + res[:-1])
    return broken


def twice_list(f):
    def broken(self):
        res = list(f(self))
        return res[:1] + res[:-1]
    return broken


def extra(what):
    def build(f):
        return lambda self: iter(list(f(self)) + [what])
    return build


def extra_list(what):
    def build(f):
        return lambda self: list(f(self)) + [what]
    return build


def other_key(f):
    return lambda self: iter(['other'] + list(f(self))[1:])


def other_key_list(f):
    return lambda self: ['other'] + list(f(self))[1:]


def last_other(make):
    def build(f):
        def broken(self):
            res = list(f(self))
            return iter(res[:-1] + [make(res[-1])])
        return broken
    return build


def last_other_list(make):
    def build(f):
        return lambda self: list(last_other(make)(f)(self))
    return build


def swapped(f):
    def broken(self):
        res = list(f(self))
        return iter([(k, v) for (k, _), (_, v) in zip(res, res[::-1])])
    return broken


def swapped_list(f):
    def broken(self):
        res = list(f(self))
        return [(k, v) for (k, _), (_, v) in zip(res, res[::-1])]
    return broken


def renamed_items(f):
    def broken(self):
        return iter([('x-' + k, v) for k, v in f(self)])
    return broken


def const(value):
    def build(f):
        return lambda self, *args, **kw: value
    return build


def ignore_default(f):
    def broken(self, key, default=None):
        return f(self, key)
    return broken


def only(key):
    def build(f):
        return lambda self, k: k == key
    return build


def off(n):
    def build(f):
        return lambda self: f(self) + n
    return build


def update_pairs_only(f):
    def broken(self, *args, **kw):
        return f(self, *args)
    return broken


def update_kw_only(f):
    def broken(self, *args, **kw):
        if len(args) > 1:
            raise TypeError()
        return f(self, **kw)
    return broken


def update_many(f):
    def broken(self, *args, **kw):
        for arg in args:
            f(self, arg)
        return f(self, **kw)
    return broken


def update_others(f):
    def broken(self, *args, **kw):
        if len(args) > 1:
            raise TypeError()
        return f(self, **dict((k, type(self)()) for k in
                              list(kw) + [k for k, _ in args[0:1] and (
                                  args[0] if isinstance(args[0], tuple)
                                  else ())]))
    return broken


def update_other_kw(f):
    def broken(self, *args, **kw):
        return f(self, *args, **dict((k, type(self)()) for k in kw))
    return broken


def update_other_pairs(f):
    def broken(self, *args, **kw):
        if len(args) == 1 and isinstance(args[0], tuple):
            args = (tuple((k, type(self)()) for k, _ in args[0]),)
        return f(self, *args, **kw)
    return broken


def update_not_last(f):
    def broken(self, *args, **kw):
        if args and isinstance(args[0], tuple):
            args = (args[0][:-1],)
        return f(self, *args, **kw)
    return broken


def del_all(f):
    def broken(self, key):
        self.data.clear()
    return broken


def del_other(f):
    def broken(self, key):
        if key == 'bar':
            key = 'foo'
        return f(self, key)
    return broken


def copy_self(f):
    return lambda self: self


def copy_empty(f):
    return lambda self: type(self)(self.__name__, self.__parent__)


def copy_deep(f):
    def broken(self):
        res = f(self)
        for key in list(res.data):
            res.data[key] = type(self)(key, res)
        return res
    return broken


def copy_unnamed(f):
    def broken(self):
        res = f(self)
        res.__name__ = None
        return res
    return broken


def copy_orphan(f):
    def broken(self):
        res = f(self)
        res.__parent__ = None
        return res
    return broken


def setdefault_replaces(f):
    def broken(self, key, default=None):
        self.store(key, default)
        return default
    return broken


def setdefault_forgets(f):
    def broken(self, key, default=None):
        return self.data.get(key, default)
    return broken


def setdefault_other(f):
    def broken(self, key, default=None):
        if key not in self.data:
            self.store(key, type(self)())
        return self.data[key]
    return broken


def setdefault_none(f):
    def broken(self, key, default=None):
        f(self, key, default)
    return broken


def setdefault_elsewhere(f):
    def broken(self, key, default=None):
        if key in self.data:
            return self.data[key]
        self.store('x-' + key, default)
        return default
    return broken


def pop_quiet(f):
    def broken(self, key, *default):
        if not default:
            default = (None,)
        return f(self, key, *default)
    return broken


def pop_no_default(f):
    def broken(self, key, *default):
        return f(self, key)
    return broken


def pop_wrong_default(f):
    def broken(self, key, *default):
        if default and key not in self.data:
            return None
        return f(self, key, *default)
    return broken


def pop_other_default(f):
    def broken(self, key, *default):
        if default and key not in self.data:
            return 'default'
        return f(self, key, *default)
    return broken


def pop_keeps(f):
    def broken(self, key, *default):
        if default:
            return self.data.get(key, *default)
        return self.data[key]
    return broken


def pop_other(f):
    def broken(self, key, *default):
        if key == 'foo':
            return f(self, 'bar')
        return f(self, key, *default)
    return broken


def pop_other_value(f):
    def broken(self, key, *default):
        if key in self.data:
            f(self, key)
            return type(self)()
        return f(self, key, *default)
    return broken


def pop_all(f):
    def broken(self, key, *default):
        res = f(self, key, *default)
        if key == 'foo':
            self.data.clear()
        return res
    return broken


def pop_removes_other(f):
    def broken(self, key, *default):
        if key == 'foo':
            res = self.data[key]
            f(self, [k for k in self.data if k != key][0])
            return res
        return f(self, key, *default)
    return broken


def update_no_mapping(f):
    def broken(self, *args, **kw):
        if args and not isinstance(args[0], tuple) and len(args) == 1:
            raise TypeError()
        return f(self, *args, **kw)
    return broken


def popitem_keeps(f):
    return lambda self: list(self.data.items())[-1]


def popitem_two(f):
    def broken(self):
        f(self)
        return f(self)
    return broken


def popitem_quiet(f):
    def broken(self):
        if not self.data:
            return None
        return f(self)
    return broken


def popitem_error(f):
    def broken(self):
        if not self.data:
            raise IndexError()
        return f(self)
    return broken


def clear_some(f):
    def broken(self):
        del self.data[list(self.data)[0]]
    return broken


def noop(f):
    return lambda self, *args, **kw: None


# whether node checks are needed to see it
NODE = True
LISTS = [(lose_list, 0), (extra_list('more'), 0),
         (last_other_list(lambda key: 'other'), 0),
         (other_key_list, 0), (const([]), 0), (const(None), 0)]
ITERS = [(lose, 0), (extra('more'), 0), (other_key, 0),
         (last_other(lambda key: 'other'), 0),
         (const(()), 0), (const(None), 0)]
BROKEN = {
    '__setitem__': [],
    '__getitem__': [(lambda f: lambda self, key: Mapping('wrong'), NODE)],
    'get': [(noop, 0), (ignore_default, 0),
            (lambda f: lambda self, key, default=None: default, 0),
            (lambda f: lambda self, key, default=None: f(self, 'foo'), 0)],
    '__iter__': ITERS,
    'keys': LISTS,
    'iterkeys': ITERS,
    'values': [(last_other_list(lambda x: Mapping('x')), NODE),
               (lose_list, 0), (const([]), 0),
               (extra_list(Mapping('more')), 0),
               (lambda f: lambda self: [Mapping('x') for _ in f(self)],
                NODE)],
    'itervalues': [(last_other(lambda x: Mapping('x')), NODE),
                   (lose, 0), (const(()), 0),
                   (extra(Mapping('more')), 0),
                   (lambda f: lambda self: iter(
                       [Mapping('x') for _ in f(self)]), NODE)],
    'items': [(last_other_list(lambda x: (x[0], Mapping(x[0]))), 0),
              (last_other_list(lambda x: ('other', x[1])), 0),
              (lose_list, 0), (const([]), 0),
              (extra_list(('more', Mapping('more'))), 0),
              (swapped_list, 0),
              (lambda f: lambda self: list(renamed_items(f)(self)), 0),
              (lambda f: lambda self: [(k, Mapping(k))
                                       for k, _ in f(self)], 0)],
    'iteritems': [(last_other(lambda x: (x[0], Mapping(x[0]))), 0),
                  (last_other(lambda x: ('other', x[1])), 0),
                  (lose, 0), (const(()), 0),
                  (extra(('more', Mapping('more'))), 0),
                  (swapped, 0), (renamed_items, 0),
                  (lambda f: lambda self: iter(
                      [(k, Mapping(k)) for k, _ in f(self)]), 0)],
    '__contains__': [(const(True), 0), (const(False), 0), (only('foo'), 0),
                     (only('bar'), 0),
                     (lambda f: lambda self, key: not f(self, key), 0)],
    'has_key': [(const(False), 0), (only('foo'), 0),
                (only('bar'), 0), (const(None), 0),
                (lambda f: lambda self, key: not f(self, key), 0)],
    '__len__': [(off(1), 0), (const(0), 0), (const(3), 0),
                (lambda f: lambda self: f(self) - 1, 0)],
    'update': [(noop, 0), (update_pairs_only, 0), (update_kw_only, 0),
               (update_many, 0), (update_others, 0), (update_not_last, 0),
               (update_other_kw, 0), (update_other_pairs, 0),
               (update_no_mapping, 0)],
    '__delitem__': [(noop, 0), (del_all, 0), (del_other, 0)],
    'copy': [(noop, 0), (copy_self, 0), (copy_empty, 0), (copy_deep, 0),
             (copy_unnamed, NODE), (copy_orphan, NODE)],
    'setdefault': [(noop, 0), (setdefault_replaces, 0),
                   (setdefault_forgets, 0), (setdefault_other, 0),
                   (setdefault_none, 0), (setdefault_elsewhere, 0)],
    'pop': [(noop, 0), (pop_quiet, 0), (pop_no_default, 0),
            (pop_wrong_default, 0), (pop_other_default, 0),
            (pop_keeps, 0), (pop_other, 0),
            (pop_other_value, 0), (pop_all, 0),
            (pop_removes_other, 0)],
    'popitem': [(noop, 0), (popitem_keeps, 0), (popitem_two, 0),
                (popitem_quiet, 0), (popitem_error, 0)],
    'clear': [(noop, 0), (clear_some, 0)],
}


def breakages():
    return st.tuples(st.sampled_from(CONTRACT), gen.one_of(
        st.just(['missing']),
        st.sampled_from(range(len(ERRORS))).map(lambda i: ['raises', i]),
        st.tuples(st.just('wrong'), gen.idx).map(list),
        st.tuples(st.just('wrong'), gen.idx).map(list),
        st.tuples(st.just('wrong'), gen.idx).map(list),
        st.tuples(st.just('wrong'), gen.idx).map(list)))\
        .map(list)


def raiser(exc, msg='broken'):
    def broken(self, *args, **kw):
        raise exc(msg)
    return broken


def broken_method(base, name, how, node_checks):
    """The broken method or None if there is no such breakage."""
    if how[0] == 'missing':
        return 'missing'
    if how[0] == 'raises':
        return raiser(ERRORS[how[1]])
    wrong = [build for build, node in BROKEN[name]
             if node_checks or not node]
    build = gen.pick(wrong, how[1])
    return build(getattr(base, name)) if build is not None else None


def attribute_missing(name):
    def missing(self):
        raise AttributeError(name)
    return property(missing)


def equality(self, other):
    return isinstance(other, Mapping) \
        or type(other).__name__ == 'Broken'


def broken_class(case, node_checks, ctx=None):
    methods = {}
    if case['equal']:
        # equal children are not yet the same
        more = {'__eq__': equality, '__hash__': object.__hash__}
    else:
        more = {}
    for name, how in case['broken']:
        method = broken_method(Mapping, name, how, node_checks)
        if method is None:
            continue
        if ctx is not None:
            ctx.label('%s %s' % (how[0], name))
        methods[name] = method
    if case['style'] == 0:
        # all in one class
        namespace = dict(Mapping.__dict__)
        namespace.pop('__dict__', None)
        namespace.pop('__weakref__', None)
        namespace.update(more)
        for name, method in methods.items():
            if method == 'missing':
                if name in ('__contains__', '__iter__'):
                    # else iteration or item access take their place
                    namespace[name] = None
                else:
                    del namespace[name]
            else:
                namespace[name] = method
        cls = type('Broken', (object,), namespace)
    else:
        namespace = more
        for name, method in methods.items():
            if method == 'missing':
                if name.startswith('__'):
                    namespace[name] = None
                else:
                    namespace[name] = attribute_missing(name)
            else:
                namespace[name] = method
        cls = type('Broken', (Mapping,), namespace)
    return cls, sorted(methods, key=CONTRACT.index)


def judge(results, broken, what):
    """The verdicts in view of the names of broken methods."""
    eq(list(results.keys()), CONTRACT, '%s: methods with verdict' % what)
    first = CONTRACT.index(broken[0]) if broken else len(CONTRACT)
    for i, name in enumerate(CONTRACT):
        verdict = results[name]
        if i < first:
            eq(verdict, 'OK', '%s: verdict of %s' % (what, name))
        elif i == first:
            check(isinstance(verdict, str)
                  and verdict.startswith('failed: '),
                  '%s: verdict of broken %s: %r', what, name, verdict)
        else:
            check(verdict == 'OK' or verdict.startswith('failed: '),
                  '%s: verdict of %s: %r', what, name, verdict)


def combined(tester):
    lines = tester.combined.split('\n')
    want = ['``%s``: %s' % (name, tester.results[name])
            for name in sorted(CONTRACT)]
    eq(lines, want, 'combined')


def broken_cases(tier):
    return st.fixed_dictionaries({
        'broken': gen.one_of(
            st.lists(breakages(), min_size=1, max_size=1),
            st.lists(breakages(), min_size=1, max_size=1),
            st.lists(breakages(), min_size=1, max_size=1),
            st.lists(breakages(), max_size=4)),
        'style': st.integers(0, 1),
        'node_checks': st.booleans(),
        'equal': st.booleans(),
        'context': st.integers(0, 2),
        'direct': st.integers(0, 3)})


def run_broken(case, ctx):
    from node.testing import FullMappingTester
    checks = case['node_checks']
    cls, broken = broken_class(case, checks, ctx)
    # children of the tested class itself or of another conforming one
    if case['context'] == 0:
        child, context = cls, None
    elif case['context'] == 1:
        child, context = cls, cls()
    else:
        child, context = Mapping, cls()
    tester = FullMappingTester(child, context=context, node_checks=checks)
    if case['direct'] == 0:
        ctx.label('direct')
        tester.direct_error = True
        try:
            tester.run()
        except Exception:
            check(broken, 'direct error on a conforming mapping')
            eq(list(tester.results.keys()),
               CONTRACT[:CONTRACT.index(broken[0])], 'verdicts')
        else:
            check(not broken, 'no direct error for broken %s', broken)
        for name, verdict in tester.results.items():
            eq(verdict, 'OK', 'direct verdict of %s' % name)
    else:
        tester.run()
        judge(tester.results, broken, 'broken %s' % broken)
        combined(tester)
    ctx.hit(len(broken) > 0)


# nodes

def node_cases(tier):
    return st.fixed_dictionaries({
        'cls': gen.one_of(
            st.sampled_from(['BaseNode', 'OrderedNode', 'Node',
                             'AttributedNode', 'MyNode']),
            st.fixed_dictionaries({
                'flags': st.lists(
                    st.sampled_from([x for x in classes.CANONICAL[:-2]
                                     if x not in (
                                         'UUIDAware', 'Alias')]),
                    max_size=9, unique=True),
                'odict': st.booleans(),
                'nonnodes': st.booleans()})),
        'child': st.integers(0, 2),
        'context': st.booleans(),
        'broken': gen.one_of(st.just([]), st.lists(
            breakages(), min_size=1, max_size=1))})


def run_node(case, ctx):
    from node.testing import FullMappingTester
    if isinstance(case['cls'], str):
        cls = classes.shipped(case['cls'])
        checks = True
        flags = []
    else:
        spec = case['cls']
        if case['broken']:
            # looks for children on each attribute access, so that nodes
            # with a broken __getitem__ cannot be created at all
            spec = dict(spec, flags=[x for x in spec['flags']
                                     if x != 'GetattrChildren'])
        cls, flags, _ = composition(spec)
        checks = 'Adopt' in flags
    broken = []
    if case['broken']:
        (name, how), = case['broken']

        class Broken(cls):
            pass

        cls = Broken
        if how[0] == 'missing':
            setattr(cls, name, None if name.startswith('__')
                    else attribute_missing(name))
            broken = [name]
        elif how[0] == 'raises':
            setattr(cls, name, raiser(ERRORS[how[1]]))
            broken = [name]
    context = None
    if case['context'] or 'Reference' in flags:
        context = cls()
    child = cls
    if context is not None and not broken and case['child'] == 1 \
            and 'Reference' not in flags and case['cls'] not in (
                'Node', 'AttributedNode'):
        child = classes.shipped('OrderedNode')
    tester = FullMappingTester(child, context=context, node_checks=checks)
    tester.run()
    if broken:
        ctx.label('broken node')
        eq(sorted(tester.results.keys()), sorted(CONTRACT), 'verdicts')
        verdicts = list(tester.results.values())
        for verdict in verdicts:
            check(verdict == 'OK' or verdict.startswith('failed: '),
                  'verdict %r', verdict)
        check(not all(x == 'OK' for x in verdicts
                      [:CONTRACT.index(broken[0]) + 1]),
              '%s broken in a node, but all verdicts up to it are OK',
              broken[0])
        ctx.hit()
    else:
        judge(tester.results, [], case['cls'])
        combined(tester)
        ctx.hit(len(flags) > 3 or isinstance(case['cls'], str))


# own testers

def tester_cases(tier):
    return st.fixed_dictionaries({
        'names': st.lists(gen.idents(), min_size=1, max_size=6,
                          unique=True),
        'outcome': st.lists(st.integers(-2, len(ERRORS) - 1), min_size=6,
                            max_size=6),
        'where': st.lists(st.lists(st.integers(0, 3), max_size=3,
                                   unique=True), min_size=6, max_size=6),
        'bases': st.integers(0, 3),
        'direct': st.booleans(),
        'context': st.booleans()})


def run_tester(case, ctx):
    """Outcome -2: there is no test, -1: it passes, else: it raises."""
    from node.testing.base import BaseTester, ContractError
    names = ['c_' + x for x in case['names']]
    calls = []
    namespace = {'iface_contract': names}
    errors = {}

    def test(name, error):
        def func(self):
            calls.append((name, self.context))
            if error is not None:
                raise error
        return func
    for name, outcome in zip(names, case['outcome']):
        if outcome >= -1:
            errors[name] = None if outcome == -1 \
                else ERRORS[outcome]('%s failed' % name)
            namespace['test_' + name] = test(name, errors[name])
    bases = []
    for i in range(case['bases']):
        bases.append(type('Base%d' % i, (object,), {
            name: i for name, where in zip(names, case['where'])
            if i in where}))
    cls = type('Impl', tuple(bases) or (object,), {
        name: 'own' for name, where in zip(names, case['where'])
        if 3 in where})
    context = cls() if case['context'] else None
    tester = type('Tester', (BaseTester,), namespace)(cls, context=context)
    if context is not None:
        same(tester.context, context, 'context')
    check(type(tester.context) is cls, 'type of context')
    tester.direct_error = case['direct']
    want, end = [], None
    ran = []
    for name in names:
        if name not in errors:
            end = ContractError
            break
        ran.append((name, tester.context))
        if errors[name] is None:
            want.append((name, 'OK'))
        elif case['direct']:
            end = errors[name]
            break
        else:
            want.append((name, 'failed: %r' % errors[name]))
    if end is None:
        tester.run()
    elif end is ContractError:
        raises(ContractError, tester.run)
        ctx.label('no test')
    else:
        got = raises(type(end), tester.run)
        same(got, end, 'direct error')
        ctx.label('direct')
    eq(calls, ran, 'tests run')
    eq(list(tester.results.items()), want, 'results')
    eq(tester.combined, '\n'.join(
        '``%s``: %s' % x for x in sorted(want)), 'combined')
    lines = []
    for name in sorted(names):
        where = case['where'][names.index(name)]
        if 3 in where:
            lines.append('%s: Impl' % name)
            continue
        found = [x for x in range(case['bases']) if x in where]
        if case['bases'] > 1:
            # known finding: there is a text for each of several bases
            lines.append(None)
            continue
        lines.append('%s: %s' % (name, 'Base%d' % found[0] if found
                                 else 'function not found on object'))
    got = tester.wherefrom.split('\n')
    eq(len(got), len(lines), 'lines of wherefrom')
    for line, want in zip(got, lines):
        if want is not None:
            eq(line, want, 'wherefrom')
    ctx.hit(len(names) > 1)


# known findings

def unseen(name, how):
    from node.testing import FullMappingTester
    cls = type('Broken', (Mapping,), {name: how(getattr(Mapping, name))})
    tester = FullMappingTester(cls)
    tester.run()
    return all(x == 'OK' for x in tester.results.values())


def probe_duplicates():
    return all([
        unseen('__iter__', twice), unseen('keys', twice_list),
        unseen('iterkeys', twice), unseen('values', twice_list),
        unseen('itervalues', twice), unseen('items', twice_list),
        unseen('iteritems', twice)])


def probe_has_key():
    return unseen('has_key', const(True))


def probe_wherefrom():
    from node.testing.base import BaseTester
    a = type('A', (object,), {'x': 1})
    b = type('B', (object,), {})
    tester = type('Tester', (BaseTester,), {'iface_contract': ['x']})(
        type('Impl', (a, b), {}))
    return tester.wherefrom != 'x: A'


PROP = Prop(
    'P34', [Sub('broken', broken_cases, run_broken, 36000),
            Sub('nodes', node_cases, run_node, 4500),
            Sub('testers', tester_cases, run_tester, 4500)],
    rule='(broken) a conforming mapping whose methods do not use each other '
         'with up to four methods missing, raising one of 8 exceptions, or '
         'misbehaving in one of about 90 ways; (nodes) shipped and randomly '
         'composed node classes, also with a missing or raising method; '
         '(testers) own testers with random contracts, tests and class '
         'hierarchies. Non-trivial: at least one method is broken, or more '
         'than three behaviors are composed, or more than one contract '
         'name.',
    probes={'duplicates': probe_duplicates, 'has-key': probe_has_key,
            'wherefrom': probe_wherefrom},
    assumptions=[
        'misbehaviors are those visible to the scenario of the tester',
        'the broken mapping gives its data attribute to the tester, so that '
        'deletion is not needed before it is tested'])
