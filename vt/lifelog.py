# -*- coding: utf-8 -*-
"""Records all zope object events, in one global handler per process."""
LOG = []
_registered = []
_hook = []


def _handler(ob, event):
    LOG.append((event, ob))
    for hook in _hook:
        hook(ob, event)


def install(hook=None):
    from zope.component import provideHandler
    from zope.interface.interfaces import IObjectEvent
    if not _registered:
        provideHandler(_handler, (None, IObjectEvent))
        _registered.append(True)
    del LOG[:]
    _hook[:] = [hook] if hook else []


def take():
    res = list(LOG)
    del LOG[:]
    return res
