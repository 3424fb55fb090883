#!/bin/bash
# check.sh <property> [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 -c 'import sys; sys.path.insert(0,"."); from va.core import main; sys.exit(main(["x"]+sys.argv[1:]))' "$@"
