#!/bin/bash
# nothing to build: the monitors interpret /repo's working tree directly.
# Only make sure that the interpreter starts and the harness is complete.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/jy/env.sh
chmod +x "$here/run.sh" 2>/dev/null
/usr/bin/python3 -B -c "import ast,sys; ast.parse(open('$here/harness/driver.py').read())" || exit 1
cd /tmp && jython2 -c "print 'jython ok'" || exit 1
