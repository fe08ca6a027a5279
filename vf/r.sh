#!/bin/sh
cd "$(dirname "$0")/.." && PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m vf.run "$@"
