#!/bin/bash
# usage: ./check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -X utf8 -m engine.check "$@"
