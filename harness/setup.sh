#!/bin/bash
# Nothing is compiled: the checks import /repo's Python code directly and reuse
# the generated message code of the sandbox.  This only proves that it imports.
. /opt/vp/env.sh
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PYTHONPATH" /opt/venv/bin/python -c "import bt; print('harness imports')"
