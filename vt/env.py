# -*- coding: utf-8 -*-
"""Makes the code under test and Hypothesis importable.

The code under test is always imported from the working tree: /repo by
default, or the tree named by VT_REPO (used only while developing the checks,
to run them against scratch copies).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    sys.dont_write_bytecode = True
    for name in [n for n in sys.modules
                 if n == 'node' or n.startswith('node.')]:
        del sys.modules[name]
    sys.path[:] = [p for p in sys.path
                   if os.path.abspath(p or '.') != '/repo/src']
    sys.path.insert(0, SRC)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import node.base
    path = os.path.abspath(node.base.__file__)
    if not path.startswith(os.path.abspath(SRC) + os.sep):
        raise RuntimeError('wrong code under test: %s' % path)
    import logging
    logging.getLogger('node').addHandler(logging.NullHandler())
    logging.getLogger('node').propagate = False
