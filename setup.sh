#!/bin/bash
# Warms the Go build cache and proves that everything the checks need builds.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
python3 - <<'P'
from vh import env
print(env.build())
print(env.build(race=True))
P
