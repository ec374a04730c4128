#!/bin/sh
# Nothing to build: the checks compile /repo's package from source in memory on every run. This only proves the tools are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import sys; assert sys.version_info >= (3, 12); from dst import boot; boot.boot(); print(len(boot.CODES), 'code objects under simulation')"
