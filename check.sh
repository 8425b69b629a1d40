#!/bin/bash
# usage: check.sh PROPERTY [--thorough]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
exec python3 analysis/framework.py "$@"
