# -*- coding: utf-8 -*-
from hypothesis import strategies as st

from vt import gen, lifelog
from vt.core import Prop, Sub, check, eq, same
from vt.props import p44


def cases(tier):
    spec = p44.class_cases().map(lambda x: x[0])
    return st.fixed_dictionaries({
        'classes': st.tuples(spec, st.lists(
            st.integers(0, 20), min_size=1, max_size=4)).map(
                lambda x: [dict(x[0], cuts=x[1])]),
        # settings and the places of the classes they are made on
        'settings': st.lists(st.tuples(
            st.sampled_from(['aliaser', 'aliaser', 'attributes_factory',
                             'fallback_key']),
            st.integers(0, 4)).map(list), max_size=2),
        'trees': st.tuples(p44.tree_cases(16, 30)(tier)).map(list),
        'schedule': st.just([0])})


NEED = dict(aliaser='Alias', attributes_factory='Attributes',
            fallback_key='Fallback')


def bodies(case):
    import node.behaviors as b
    from node.behaviors.alias import DictAliaser
    res = [{} for x in range(5)]
    for name, i in case.get('settings', ()):
        need = NEED[name]
        if need not in case['classes'][0]['flags']:
            continue
        if name == 'aliaser':
            value = DictAliaser([
                (key, p44.HIDDEN + key) for key in gen.distinct(
                    [gen.dk(key) for key in case['trees'][0]['keys']])],
                strict=False)
        elif name == 'attributes_factory':
            value = type('OwnAttributes', (b.NodeAttributes,), {})
        else:
            value = 'nothing'
        res[i][name] = value
    return res


def run(case, ctx):
    from zope.interface import implementedBy
    spec = dict(case['classes'][0], bodies=bodies(case))
    world = p44.World(dict(case, classes=[spec]), ctx)
    names, cls = world.classes[0]
    flat = p44.hooked(tuple(names), spec['place'])
    eq(set(implementedBy(cls).flattened()),
       set(implementedBy(flat).flattened()), 'interfaces of the classes')
    for name in dir(flat):
        check(name.startswith('__') or hasattr(cls, name),
              'attribute %s is missing', name)
    settings = {}
    for i, cut in enumerate(sorted(set(
            x % (len(names) + 1) for x in spec['cuts']) | {0})[::-1]):
        settings.update(spec['bodies'][i] if i < 5 else {})
    try:
        for tree in world.trees:
            while tree.script:
                tree.run()
            node = tree.node
            same(node.acquire(cls), None, 'acquire() of root')
        for name, value in settings.items():
            same(getattr(tree.node, name), value, 'setting ' + name) \
                if name in ('aliaser', 'fallback_key') else None
        if 'Attributes' in names and 'attributes_factory' in settings:
            same(type(node.attrs), settings['attributes_factory'],
                 'type of attributes')
        ordered = 'OdictStorage' in names
        shown = []
        for each in (cls, flat):
            top = each(name='top')
            for key in list(tree.node)[:5]:
                try:
                    top[key] = each(name=key)
                except KeyError:
                    pass
            shown.append(top.treerepr().replace(str(each), 'class'))
            if ordered:
                keys = list(top)
                eq([x for x in list(tree.node)[:5] if x in keys], keys,
                   'order of the keys')
        eq(shown[0], shown[1], 'treerepr()')
        if 'Alias' in names and 'aliaser' in settings:
            aliaser = settings['aliaser']
            eq(list(node.storage), [aliaser.get(key, key) for key in node],
               'keys of the storage')
            ctx.label('aliased')
    finally:
        p44.ACTIVE.clear()
        lifelog.install()
    steps = len(set(x % (len(names) + 1) for x in spec['cuts']) | {0})
    ctx.label('steps %d' % steps)
    ctx.hit(tree.mutations > 2 and steps > 1)


PROP = Prop(
    'P45', [Sub('stacked', cases, run, 7000)],
    rule='A random composition is cut at up to four places: each part is '
         'plumbed to a subclass of the class with the parts that follow. '
         'Histories of 26 kinds of operations against the models used for '
         'compositions plumbed at once, interfaces and attributes compared '
         'with the class plumbed at once. Non-trivial: more than two '
         'changes, more than one class.',
    assumptions=['each behavior is applied once'])
