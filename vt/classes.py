# -*- coding: utf-8 -*-
"""Node classes for the checks, built lazily and cached."""
import functools
import zlib


def shipped(name):
    if name == 'MyNode':
        from node.testing.env import MyNode
        return MyNode
    import node.base
    return getattr(node.base, name)


UNORDERED = ('BaseNode',)
TREE_TYPES = ['BaseNode', 'OrderedNode', 'Node', 'AttributedNode', 'MyNode']
REF_TYPES = ['Node', 'AttributedNode']


@functools.lru_cache(None)
def build(name, behaviors, attrs=()):
    """Plumb a class from behavior names, outermost first.

    ``attrs`` is a tuple of (name, value) class attributes.
    """
    import node.behaviors as b
    from plumber import plumbing
    # some are plain subclasses of the plumbed class, with or without attrs
    kind = zlib.crc32(repr((name, behaviors)).encode()) % 4
    module = {'__module__': __name__}
    below = {} if kind == 2 else dict(attrs)
    cls = plumbing(*[getattr(b, x) for x in behaviors])(
        type(name, (object,), below))
    if kind == 1:
        cls = type(name, (cls,), dict(module))
    elif kind == 2:
        cls = type(name, (type(name, (cls,), dict(attrs, **module)),),
                   dict(module))
    return cls


def placed(cls, where, **settings):
    """Instance with settings on the instance, class or base class."""
    where %= 3
    if where:
        cls = type(cls.__name__, (cls,), dict(
            settings, __module__=cls.__module__))
    if where == 2:
        cls = type(cls.__name__, (cls,), {'__module__': cls.__module__})
    node = cls(name='node')
    if not where:
        for name, value in settings.items():
            setattr(node, name, value)
    return node


CANONICAL = ['NodeChildValidate', 'Nodespaces', 'UUIDAware', 'Lifecycle',
             'Adopt', 'Attributes', 'Cache', 'Invalidate',
             'VolatileStorageInvalidate', 'Reference', 'Order',
             'AsAttrAccess', 'GetattrChildren', 'UnicodeAware', 'Alias',
             'Fallback', 'Events', 'DefaultInit', 'Nodify']


def normalize(flags):
    """Turn any set of behavior names into a composition that makes sense."""
    flags = set(flags) | {'DefaultInit', 'Nodify'}
    if 'Attributes' in flags:
        flags.add('Nodespaces')
    if 'Reference' in flags:
        # both define the uuid
        flags.discard('UUIDAware')
        flags.add('Adopt')
    if 'Cache' in flags:
        if 'VolatileStorageInvalidate' not in flags:
            flags.add('Invalidate')
    if 'VolatileStorageInvalidate' in flags:
        flags.discard('Invalidate')
    if 'Fallback' in flags:
        flags.add('Adopt')
    return [x for x in CANONICAL if x in flags]


def compose(flags, storage, attrs=()):
    behaviors = normalize(flags)
    return build('Composed', tuple(behaviors) + (storage,), tuple(attrs))
