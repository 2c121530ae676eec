#!/bin/bash
# nothing to build; fail early if the interpreter lacks a package
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "
import numpy, netCDF4, requests, bs4, packaging
import mc.engine, mc.ref, mc.model, mc.fixture
print('ok')"
