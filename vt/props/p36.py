# -*- coding: utf-8 -*-
import logging

from hypothesis import strategies as st

from node.utils import debug
from node.utils import instance_property

from vt import classes, gen
from vt.core import Prop, Sub, check, eq, raises, same


class Boom(Exception):
    pass


class Weird(object):
    """Cannot be compared, is false, has no repr."""
    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError('must not be compared')

    def __bool__(self):
        raise RuntimeError('must not be tested')


def values():
    return [None, 0, False, '', [], {}, object(), 'text', Weird(),
            AttributeError('x'), AttributeError, NotImplemented, ()]


ERRORS = [Boom, AttributeError, KeyError, ValueError, StopIteration]
NAMES = ['alpha', '_beta', '__gamma']


def cases(tier):
    return st.fixed_dictionaries(dict(
        kinds=st.lists(st.sampled_from(['plain', 'sub', 'sub2', 'getattr',
                                        'node', 'overriding']),
                       min_size=1, max_size=4),
        values=st.lists(st.integers(0, 12), min_size=1, max_size=6),
        ops=gen.ops((6, gen.op('get', st.integers(0, 3), st.integers(0, 2))),
                    (2, gen.op('fail', st.integers(0, 3), st.integers(0, 2),
                               st.integers(0, 4))),
                    (1, gen.op('class', st.integers(0, 3),
                               st.integers(0, 2))),
                    min_size=4, max_size=gen.size(tier, 25, 60))))


def run(case, ctx):
    pool = values()
    calls = []
    failing = []

    def make(name):
        def func(self):
            calls.append((id(self), name))
            if failing:
                raise failing[0]
            return gen.pick(pool, case['values'][len(calls) %
                                                 len(case['values'])])
        func.__name__ = name
        func.__doc__ = 'Docs of %s' % name
        return instance_property(func)

    def body():
        return {name: make(name) for name in NAMES}

    plain = type('Plain', (object,), body())
    sub = type('Sub', (plain,), {})
    sub2 = type('Sub2', (plain,), dict(_beta=make('_beta')))

    def getattr_(self, name):
        return 'from __getattr__ %s' % name
    getter = type('Getattr', (object,), dict(body(), __getattr__=getattr_))
    base = classes.shipped('OrderedNode')
    node = type(base)('Node', (base,), body())
    overriding = type('Overriding', (plain,), dict(
        __gamma=property(lambda self: getattr(plain, '__gamma').fget(self))))
    kinds = dict(plain=plain, sub=sub, sub2=sub2, getattr=getter, node=node,
                 overriding=overriding)
    obs = [kinds[kind]() for kind in case['kinds']]
    known = {}
    for op in case['ops']:
        i = op[1] % len(obs)
        ob, name = obs[i], NAMES[op[2]]
        before = len(calls)
        ctx.label(op[0])
        if op[0] == 'get' or (i, name) in known:
            if op[0] == 'fail':
                failing.append(Boom())
            elif op[0] == 'class':
                continue
            got = getattr(ob, name)
            del failing[:]
            if (i, name) in known:
                same(got, known[i, name], 'repeated access of ' + name)
                eq(len(calls), before, 'evaluations at repeated access')
                ctx.hit()
            else:
                eq(calls[before:], [(id(ob), name)], 'evaluations')
                want = gen.pick(pool, case['values'][len(calls) %
                                                     len(case['values'])])
                same(got, want, 'value of ' + name)
                known[i, name] = got
        elif op[0] == 'fail':
            error = ERRORS[op[3]](name)
            failing.append(error)
            if isinstance(error, AttributeError) \
                    and case['kinds'][i] == 'getattr':
                # python falls back to __getattr__
                getattr(ob, name)
            else:
                same(raises(ERRORS[op[3]], getattr, ob, name), error,
                     'exception of ' + name)
            del failing[:]
            eq(calls[before:], [(id(ob), name)], 'evaluations')
        else:
            prop = getattr(type(ob), name)
            check(isinstance(prop, property), 'no property')
            if case['kinds'][i] != 'overriding' or name != '__gamma':
                eq(prop.__doc__, 'Docs of %s' % name, 'docs')
            eq(len(calls), before, 'evaluations by the class')


# ---------------------------------------------------------------------------
# debug

def debug_cases(tier):
    arg = st.integers(0, 12)
    return st.fixed_dictionaries(dict(
        level=st.sampled_from([logging.DEBUG, logging.INFO, logging.WARNING]),
        calls=st.lists(st.fixed_dictionaries(dict(
            args=st.lists(arg, max_size=3),
            kw=st.dictionaries(gen.one_of(
                st.sampled_from(['a', 'func', 'args', 'kws', 'self', '']),
                st.text(max_size=3)), arg, max_size=3),
            result=arg, error=gen.one_of(st.none(), st.none(),
                                        st.integers(0, 4)),
            how=st.sampled_from(['function', 'method', 'static', 'class']))),
            min_size=1, max_size=5)))


class Handler(logging.Handler):

    def __init__(self):
        logging.Handler.__init__(self)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


def run_debug(case, ctx):
    pool = values()
    seen = []
    state = {}

    def inner(*args, **kws):
        """Docs."""
        seen.append((args, kws))
        if state['error'] is not None:
            raise state['error']
        return state['result']

    decorated = debug(inner)
    eq(decorated.__doc__, 'Docs.', 'docs')

    class Holder(object):
        method = debug(inner)
        static = staticmethod(debug(inner))
        klass = classmethod(debug(inner))

    holder = Holder()
    logger = logging.getLogger('node')
    handler = Handler()
    level = logger.level
    logger.addHandler(handler)
    logger.setLevel(case['level'])
    try:
        for spec in case['calls']:
            args = tuple(gen.pick(pool, i) for i in spec['args'])
            kw = {k: gen.pick(pool, i) for k, i in spec['kw'].items()}
            how = spec['how']
            func = dict(function=decorated, method=holder.method,
                        static=holder.static)
            func['class'] = holder.klass
            first = dict(method=(holder,))
            first['class'] = (Holder,)
            first = first.get(how, ())
            state['result'] = gen.pick(pool, spec['result'])
            state['error'] = None
            if spec['error'] is not None:
                state['error'] = ERRORS[spec['error']]('x')
            del seen[:]
            if state['error'] is not None:
                same(raises(type(state['error']),
                            lambda: func[how](*args, **kw)),
                     state['error'], 'exception')
                ctx.label('error')
            else:
                same(func[how](*args, **kw), state['result'], 'result')
            eq(len(seen), 1, 'number of calls')
            got, kws = seen[0]
            want = first + args
            eq([id(x) for x in got], [id(x) for x in want], 'arguments')
            eq(list(kws), list(kw), 'keyword arguments')
            for key in kw:
                same(kws[key], kw[key], 'keyword argument')
            ctx.hit()
    finally:
        logger.removeHandler(handler)
        logger.setLevel(level)


PROP = Prop(
    'P36', [Sub('instance_property', cases, run, 18000),
            Sub('debug', debug_cases, run_debug, 12000)],
    rule='Several instance properties on instances of a class, of '
         'subclasses, of classes with __getattr__ and of nodes, accessed in '
         'any order, with false, odd and exceptional values and functions '
         'that raise; evaluations are counted per instance. Functions, '
         'methods, static and class methods decorated with debug called '
         'with any arguments, results, exceptions and log levels. '
         'Non-trivial: a property was accessed repeatedly, a decorated '
         'function was called.')
