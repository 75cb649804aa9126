#!/bin/bash
# Nothing to install: builds the extension once to show that the toolchain works.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/pymbs-venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=/usr/bin/gcc CXX=/usr/bin/g++ PYTHONDONTWRITEBYTECODE=1
exec /opt/pymbs-venv/bin/python -W ignore -m pv.build
