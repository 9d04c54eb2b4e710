#!/bin/bash
# nothing to build: checks load the code from /repo's working tree. Says early if the interpreter is not usable.
cd "$(dirname "$0")" && mkdir -p evidence replays && exec /opt/venv/bin/python -c "import numpy, scipy, netCDF4, dst.runner; print('ready')"
