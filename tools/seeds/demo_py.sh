#!/bin/bash
# usage: cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 200 python3 "$here/demo.py"
