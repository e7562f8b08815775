#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]
# Runs one check against /repo's current working tree (or $VP_REPO, for experiments on scratch copies).
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export VP_REPO="${VP_REPO:-/repo}"
export PYTHONPATH="$VP_REPO:$here"
export PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1
cd "$here"
exec /opt/venv/bin/python -m mc.main "$@"
