#!/bin/sh
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && VERIF_TIER="$2" && export VERIF_TIER
PATH="/opt/venv/bin:$PATH"; export PATH
PYTHONPATH="${VERIF_REPO_DEV:-/repo}:$(pwd)/lib"; export PYTHONPATH
PYTHONDONTWRITEBYTECODE=1; export PYTHONDONTWRITEBYTECODE
PYTHONHASHSEED="${PYTHONHASHSEED:-0}"; export PYTHONHASHSEED
exec /opt/venv/bin/python "harness/$(echo "$1" | tr 'A-Z' 'a-z').py"
