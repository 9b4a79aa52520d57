#!/bin/bash
# check.sh <property> <tier>   |   check.sh setup
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
if [ "$1" = setup ]; then
  mkdir -p evidence
  exec /opt/venv/bin/python -c "import engine, z3, numpy, gmpy2; print('z3', z3.get_version_string())"
fi
exec /opt/venv/bin/python -m engine.run "$1" --tier "${2:-quick}" "${@:3}"
