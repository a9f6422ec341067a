#!/bin/bash
# Builds the engine and, so that checks start quickly, the bitcode and replay binaries of every unit.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/cache evidence
python3 - <<'P'
import sys; sys.path.insert(0, 'bin')
sys.argv = ['check.py']
import check, specs, os
os.makedirs(check.CACHE, exist_ok=True)
check.build_engine()
for u in dict.fromkeys(e['unit'] for p in specs.PROPS.values() for e in p['entries'] if 'py' not in e):
    try:
        check.build_unit(u, False)
    except check.BuildError as ex:   # reported by the check itself
        print(str(ex)[-1500:])
P
