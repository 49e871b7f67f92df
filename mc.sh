#!/bin/bash
# usage: mc.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
exec /usr/bin/env python3 -B -m mc.driver "$@"
