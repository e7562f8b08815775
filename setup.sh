#!/bin/bash
# Nothing to build: the checks are Python run from source. Just prove they can start.
cd "$(dirname "$0")" && . /opt/vp/env.sh && PYTHONPATH=/repo:. /opt/venv/bin/python -c "import pandalone, mc.lib; print('ready', pandalone.__file__)"
