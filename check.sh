#!/bin/bash
# usage: check.sh PROPERTY [--thorough]   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m vmon.run "$@"
