#!/bin/sh
# nothing to build: checks that the interpreter, foxes and hypothesis can be imported
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c "
from vf import boot; boot.setup_foxes()
import foxes, hypothesis
print('foxes', foxes.__file__, 'hypothesis', hypothesis.__version__)"
