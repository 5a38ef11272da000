#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
exec /usr/bin/python3 -B "$(dirname "$(realpath "$0")")/mc/run.py" "$@"
