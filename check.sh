#!/bin/bash
# check.sh <property-id> [quick|thorough]   run one check against /repo's working tree
# check.sh replay <file>                    replay one recorded violation
# The code under test is imported from /repo itself; byte code is not written there.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv-pypy/bin/python
export PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore LC_ALL=C.UTF-8
if [ "$1" = setup ]; then exec "$PY" -c "import mc.registry, mc.core; [mc.core.load(p) for p in mc.registry.MODULES]; print(len(mc.registry.MODULES), 'checks ready')"; fi
if [ "$1" = replay ]; then exec "$PY" -m mc replay "$2"; fi
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec "$PY" -m mc check "$1"
