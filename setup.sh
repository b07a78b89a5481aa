#!/bin/bash
# Nothing to build: the monitors are pure Python on the project's own interpreter. Verify that it works.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
/opt/venv/bin/python -W ignore -m mon.run --list | tail -3
