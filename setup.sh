#!/bin/sh
# Nothing to build: verifies that the interpreter, the code under test and Hypothesis can be imported.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" && exec /opt/venv/bin/python -B -c "
import boot; boot.load_sut(); import hypothesis; print('ok, hypothesis', hypothesis.__version__)"
