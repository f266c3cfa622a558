#!/bin/bash
# nothing to install: the checks use the preinstalled clang++-18, opt-18, g++ and python3-vt (z3)
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
python3-vt -c "import sys; sys.path.insert(0,'engine'); import runner,plan,verify; print('engine ok', len(plan.PLAN))"
