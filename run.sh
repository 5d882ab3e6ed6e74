#!/bin/bash
# bash run.sh C01            run the check of one property (VERIF_TIER=quick|thorough)
# bash run.sh replay FILE    re-run one recorded violation
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH=
exec /opt/venv-pypy/bin/python -W ignore -c \
 'import sys; sys.path.insert(0, "."); from mc.core import main; sys.exit(main(sys.argv[1:]))' "$@"
