#!/bin/bash
# Builds what the checks need (they rebuild whatever has changed by themselves).
cd "$(dirname "$0")" || exit 1
python3 tools/setup.py
