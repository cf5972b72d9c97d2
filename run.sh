#!/bin/bash
# usage: run.sh PROPERTY [--replay FILE]
# Runs the runtime monitor of one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/jy/env.sh
export PYTHONDONTWRITEBYTECODE=1
exec /usr/bin/python3 -B "$here/harness/driver.py" "$@"
