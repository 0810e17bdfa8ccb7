# -*- coding: utf-8 -*-
import importlib
import json
import os
import subprocess
import sys
import types

from hypothesis import strategies as st

from vt import env
from vt.core import Prop, Sub, check, eq, fail, same, short

# profiling runs for a minute when it is imported
SKIP = ('node.tests', 'node.testing.profiling')


def modules():
    """All modules, without importing anything."""
    names = set()
    top = os.path.join(env.SRC, 'node')
    for folder, _, files in os.walk(top):
        parts = os.path.relpath(folder, env.SRC).split(os.sep)
        for name in files:
            if name == '__init__.py':
                names.add('.'.join(parts))
            elif name.endswith('.py'):
                names.add('.'.join(parts + [name[:-3]]))
    return sorted(x for x in names | set(['node'])
                  if not any(x == s or x.startswith(s + '.') for s in SKIP))


def forget():
    for name in list(sys.modules):
        if name == 'node' or name.startswith('node.'):
            del sys.modules[name]


def ours(value):
    return str(getattr(value, '__module__', '')).split('.')[0] == 'node'


def describe(value):
    """What is known of a public name, without addresses."""
    from zope.interface import implementedBy
    from zope.interface.interface import InterfaceClass
    if isinstance(value, InterfaceClass):
        return ['interface', value.__identifier__, sorted(value.names(True)),
                [x.__identifier__ for x in value.__iro__]]
    if isinstance(value, type):
        res = ['class', value.__module__, value.__qualname__,
               [x.__qualname__ for x in value.__mro__]]
        if ours(value):
            res.append(sorted(x for x in dir(value) if x[:1] != '_'))
            res.append([x.__identifier__
                        for x in implementedBy(value).__iro__])
            events = getattr(value, '__events__', None)
            if isinstance(events, (list, tuple)):
                res.append(sorted(str(x) for x in events))
        return res
    if isinstance(value, types.ModuleType):
        return ['module', value.__name__]
    if isinstance(value, (types.FunctionType, types.MethodType)):
        return ['function', value.__module__, value.__qualname__]
    if isinstance(value, (str, int, float, bytes, bool, type(None))):
        return ['value', repr(value)]
    return ['object', type(value).__module__, type(value).__qualname__]


def public(module):
    return sorted(x for x in dir(module) if not x.startswith('_')
                  # a submodule appears on its package once it is imported
                  and not isinstance(getattr(module, x), types.ModuleType))


def consistent(name, module):
    """Everything the module exports is the one of the defining module."""
    for key in public(module):
        value = getattr(module, key)
        if ours(value) and isinstance(value, (type, types.FunctionType)):
            home = sys.modules.get(value.__module__)
            check(home is not None, '%s.%s is of %s, which is not imported',
                  name, key, value.__module__)
            if '.' not in value.__qualname__:
                found = getattr(home, value.__qualname__, None)
                same(found, value, '%s.%s' % (name, key))


def smoke():
    """Uses parts of all modules together."""
    import node.base
    import node.behaviors
    import node.events
    import node.interfaces
    import node.serializer
    import node.utils
    import node.locking
    from plumber import plumbing
    res = []
    root = node.base.Node(name='root')
    root['a'] = node.base.AttributedNode(name='a')
    root['a'].attrs['x'] = node.utils.UNSET
    root['a']['b'] = node.base.Node()
    data = node.serializer.serialize(root)
    for item in ('uuid',):
        check(item not in data, 'serialized %s', item)
    res.append(json.loads(data))
    again = node.serializer.deserialize(data)
    res.append([type(again).__name__, list(again),
                again['a'].attrs['x'] is node.utils.UNSET])
    res.append(again['a']['b'].path == ['root', 'a', 'b'])
    res.append(again.node(again['a']['b'].uuid) is again['a']['b'])

    @plumbing(node.behaviors.Events, node.behaviors.DefaultInit,
              node.behaviors.Nodify, node.behaviors.OdictStorage)
    class Speaking(object):
        __events__ = ['hello']
        attr = node.events.EventAttribute(1)
    speaking = Speaking()
    calls = []
    speaking.bind(hello=lambda *a: calls.append(['hello'] + list(a)),
                  attr=lambda *a: calls.append(['attr'] + list(a)))
    speaking.dispatch('hello', 1)
    speaking.attr = 2
    with node.events.suppress_events():
        speaking.attr = 3
    with node.behaviors.suppress_events(['attr']):
        speaking.attr = 4
        speaking.dispatch('hello', 2)
    res.append(calls)
    res.append(issubclass(node.behaviors.UnknownEvent, Exception))
    try:
        speaking.dispatch('bye')
    except node.events.UnknownEvent as e:
        res.append(type(e) is node.behaviors.UnknownEvent)
    with node.locking.TreeLock(root['a']):
        res.append(root['a'].name)
    res.append(node.interfaces.INode.providedBy(root))
    res.append(node.interfaces.IEvents.providedBy(speaking))
    return res


def importing(order):
    """Imports modules in this order; returns what they have."""
    res = {}
    for name in order:
        try:
            module = importlib.import_module(name)
        except Exception as e:
            fail('import of %s after %s raised %s: %s', name,
                 [x for x in order[:order.index(name)]],
                 type(e).__name__, e)
        for key in public(module):
            getattr(module, key)
    for name in order:
        module = importlib.import_module(name)
        consistent(name, module)
        res[name] = dict((key, describe(getattr(module, key)))
                         for key in public(module))
    return res


REFERENCE = {}


def reference():
    if not REFERENCE:
        forget()
        names = modules()
        # the order in which applications import them
        first = ['node.base', 'node.behaviors', 'node.utils']
        names = [x for x in first if x in names] \
            + [x for x in names if x not in first]
        REFERENCE['data'] = importing(names)
        REFERENCE['smoke'] = smoke()
    return REFERENCE


def judge(order, got, smoked):
    ref = reference()
    for name in order:
        want = ref['data'][name]
        eq(sorted(got[name]), sorted(want), 'names in %s' % name)
        for key, value in got[name].items():
            eq(value, want[key], '%s.%s' % (name, key))
    eq(smoked, ref['smoke'], 'behaviour')


def decode(picks):
    names = modules()
    order = []
    for pick in picks:
        order.append(names.pop(pick % len(names)))
        if not names:
            break
    return order


def cases(tier):
    return st.lists(st.integers(0, 40), min_size=1, max_size=25)


def run(case, ctx):
    reference()
    order = decode(case)
    forget()
    try:
        got = importing(order)
        smoked = smoke()
        judge(order, norm(got), smoked)
    finally:
        forget()
    ctx.label('first:' + order[0])
    ctx.hit(len(order) > 1)


def pair_cases(tier):
    return st.tuples(st.integers(0, 60), st.integers(0, 8))


def run_pairs(case, ctx):
    """Each module as the first one, with each other as the second one."""
    reference()
    names = modules()
    first = names.pop(case[0] % len(names))
    for second in names[case[1]::9]:
        forget()
        order = [first, second]
        try:
            got = importing(order)
            judge(order, norm(got), smoke())
        finally:
            forget()
    ctx.label('first:' + first)
    ctx.hit(True)


def norm(data):
    return json.loads(json.dumps(data))


CODE = '''
import json, os, sys
sys.path.insert(0, %r)
from vt import env
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != '/repo/src']
sys.path.insert(0, env.SRC)
sys.path.append(env.TOOLS)
from vt.props import p37
# the package itself may be there already: namespace packages
assert not [x for x in sys.modules if x.startswith('node.')]
p37.forget()
got = p37.importing(%r)
print('RESULT ' + json.dumps([got, p37.smoke()]))
'''


def run_fresh(case, ctx):
    """The same in a new interpreter."""
    order = decode(case)
    res = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c', CODE % (env.VERIF, order)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100,
        cwd=env.VERIF)
    out = res.stdout.decode()
    check(res.returncode == 0 and 'RESULT ' in out,
          'importing %s in a new interpreter: %s', order,
          short(res.stderr.decode()[-300:]))
    got, smoked = json.loads(out[out.index('RESULT ') + 7:])
    judge(order, got, norm(smoked))
    forget()
    ctx.label('first:' + order[0])
    ctx.hit(len(order) > 1)


PROP = Prop(
    'P37', [Sub('orders', cases, run, 1600),
            Sub('pairs', pair_cases, run_pairs, 500),
            Sub('fresh', cases, run_fresh, 96)],
    rule='Sequences of up to 25 of all modules of the package, imported in '
         'generated order with the package forgotten before (or in a new '
         'interpreter): each import succeeds, each module exports the same '
         'names as in the usual order, each name is the object of the '
         'module that defines it, and a scenario using all parts together '
         'behaves the same. Non-trivial: at least two modules.',
    assumptions=['node.testing.profiling (runs a profile on import) and the '
                 'tests are not imported'])
