#!/bin/bash
# Builds the fact extractor and warms the AST cache.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
exec python3 analysis/facts.py core py insights
