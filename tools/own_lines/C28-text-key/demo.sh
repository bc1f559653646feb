#!/bin/bash
# run in the repository: exit 0 where the property holds
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec python3-vt -W ignore "$(dirname "$0")/demo.py"
