# -*- coding: utf-8 -*-
"""Importable node classes, and things to be referred to by dotted name."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from plumber import plumbing


class CustomOrdered(OrderedNode):
    pass


class CustomBase(BaseNode):
    pass


class CustomAttributed(AttributedNode):
    pass


class AttrAccess(AttributedNode):
    attribute_access_for_attrs = True


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class Minimal(object):
    pass


class Prefilled(AttributedNode):
    """The constructor creates children and attributes."""

    def __init__(self, name=None, parent=None):
        super(Prefilled, self).__init__(name=name, parent=parent)
        self['a'] = AttributedNode()
        self['b'] = AttributedNode()
        self['b']['c'] = AttributedNode()
        self.attrs['a'] = 1


class Outer(object):

    class NestedNode(OrderedNode):
        pass

    class Inner(object):

        class NestedAttributed(AttributedNode):
            pass

        class Most(object):
            pass

        def method(self):
            pass

    @staticmethod
    def static():
        pass


def function():
    pass


def other_function():
    pass
