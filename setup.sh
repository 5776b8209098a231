#!/bin/bash
# Nothing to build: checks that the tools and the code under test are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1; [ $? -le 1 ] || exit 1
/opt/venv/bin/python -c "import sys; sys.path.insert(0,'.'); from lib import env; print('code under test:', env.pypsrp.__file__)"
