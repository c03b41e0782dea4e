#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
id=$(echo "$1" | tr A-Z a-z); shift
case "$1" in quick|thorough) export VERIF_TIER=$1; shift;; esac
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 -u checks/$id.py "$@"
