#!/bin/bash
# Nothing to build; verify that the tools and the code under test are there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c '
from vt import env
env.setup()
import hypothesis, node.base
print("hypothesis", hypothesis.__version__, "node", node.base.__file__)
'
