# -*- coding: utf-8 -*-
import contextlib
import functools
import io

from hypothesis import strategies as st

from vt import classes, gen
from vt.core import Prop, Sub, eq
from vt.props.p10 import snap

FLAGS = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle', 'Adopt',
         'Attributes', 'Reference', 'Order', 'Cache', 'AsAttrAccess',
         'UnicodeAware', 'Events', 'Fallback']
VALUES = [None, 0, '', 'text' * 50, [1] * 99, b'\xff', ('a', 'b'), {'k': 'v'},
          1.5]
PREFIXES = [' ', ' ', '', '-', '..', '\t', u'\u2192', '  |', ':']


def key_ok(key):
    """Names are shown on one line."""
    text = str(gen.dk(key))
    return len(text.splitlines()) < 2 and '\n' not in text


def shown(name):
    """Names are shown without their namespace prefix."""
    return str(name).split(':', 1)[-1]


def cases(tier):
    keys = gen.pool(gen.anykeys().filter(key_ok), min_size=2, max_size=8)
    node = st.recursive(
        st.tuples(gen.idx, st.just([])).map(list),
        lambda c: st.tuples(gen.idx, st.lists(st.tuples(
            gen.idx, gen.one_of(c, c, c, st.integers(0, 8))).map(list),
            min_size=2, max_size=5)).map(list),
        max_leaves=gen.size(tier, 15, 40))
    # few deep ones
    node = st.tuples(node, gen.one_of(
        st.just(0), st.just(0), st.just(0), st.integers(1, 60)),
        gen.idx).map(lambda x: functools.reduce(
            lambda inner, i: [i, [[i, inner], [i + 1, i % 9]]],
            range(x[2], x[2] + x[1]), x[0]))
    return st.fixed_dictionaries(dict(
        flags=st.lists(st.sampled_from(FLAGS), max_size=4, unique=True),
        odict=st.booleans(), keys=keys, tree=node,
        name=gen.one_of(gen.names().filter(key_ok), st.none()),
        indent=st.sampled_from([0, 0, 0, 1, 4]),
        prefix=st.sampled_from(PREFIXES), shuffle=gen.idx))


class Builder(object):

    def __init__(self, case):
        flags = list(case['flags'])
        storage = 'OdictStorage' if case['odict'] else 'DictStorage'
        if not case['odict'] and 'Order' in flags:
            flags.remove('Order')
        flags = classes.normalize(flags)
        self.adopts = 'Adopt' in flags
        composed = classes.compose(flags, storage,
                                   (('allow_non_node_childs', True),))
        # whether children are shown in order
        kinds = [(composed, case['odict'])]
        if 'Reference' in flags:
            kinds += [(classes.shipped('Node'), True),
                      (classes.shipped('AttributedNode'), True)]
            self.raw = False
        else:
            kinds += [(classes.shipped('BaseNode'), False),
                      (classes.shipped('OrderedNode'), True),
                      (composed, case['odict'])]
            self.raw = True
        self.own = {}
        for cls, ordered in kinds:
            class Own(cls):
                @property
                def noderepr(self):
                    return 'own %s' % (self.name,)
            self.own[Own] = ordered
        self.kinds = kinds + [(own, self.own[own]) for own in self.own]
        self.keys = [gen.dk(key) for key in case['keys']]

    def build(self, spec, name, order=0):
        """Node and the model of it: [class, name, ordered, children]"""
        cls, ordered = gen.pick(self.kinds, spec[0])
        node = cls(name=name)
        node.allow_non_node_childs = True
        children = {}
        pairs = []
        seen = set()
        for i, child in spec[1]:
            key = gen.pick(self.keys, i)
            if str(key) not in seen:
                seen.add(str(key))
                pairs.append((key, child))
        if order and not ordered:
            pairs = pairs[order % len(pairs):] + pairs[:order % len(pairs)] \
                if pairs else pairs
            pairs.reverse()
        for key, child in pairs:
            if isinstance(child, int):
                value = VALUES[child]
                if not self.raw:
                    continue
                node[key] = value
                children[key] = value
            else:
                real, model = self.build(child, None, order)
                node[key] = real
                # only adopting nodes name their children
                model[1] = real.name
                children[key] = model
        return node, [cls, name, ordered, children]


def lines(model, own, depth, prefix):
    cls, name, ordered, children = model
    text = 'own %s' % (name,) if cls in own else '%s: %s' % (
        cls, shown(name))
    res = [depth * prefix + text]
    keys = list(children)
    if not ordered:
        keys.sort(key=str)
    for key in keys:
        child = children[key]
        if isinstance(child, list) and len(child) == 4:
            res.extend(lines(child, own, depth + 2, prefix))
        else:
            res.append((depth + 2) * prefix + '%s: %r' % (key, child))
    return res


def run(case, ctx):
    builder = Builder(case)
    node, model = builder.build(case['tree'], case['name'])
    indent, prefix = case['indent'], case['prefix']
    want = ''.join(x + '\n' for x in lines(model, builder.own, indent,
                                           prefix))
    before = snap(node)
    eq(node.treerepr(indent=indent, prefix=prefix), want, 'treerepr()')
    eq(node.treerepr(indent, prefix), want, 'treerepr()')
    if not indent and prefix == ' ':
        eq(node.treerepr(), want, 'treerepr()')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            node.printtree()
        eq(out.getvalue(), want + '\n', 'printtree()')
        ctx.label('default')
    eq(snap(node), before, 'tree after treerepr()')
    again, other = builder.build(case['tree'], case['name'],
                                 case['shuffle'] + 1)
    eq(again.treerepr(indent, prefix), want, 'treerepr() of an equal tree')
    ctx.hit(want.count('\n') > 3)


PROP = Prop(
    'P31', [Sub('trees', cases, run, 24000)],
    rule='Trees of mixed classes (ordered or not, adopting or not, with '
         'overridden noderepr), any keys and values, any indentation and '
         'prefix; the output is compared with lines derived from the '
         'specification of the tree, also for a tree built in different '
         'order. Non-trivial: more than three lines.',
    assumptions=['keys of one node differ as text',
                 'names do not contain line breaks'])
