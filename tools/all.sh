#!/bin/bash
# all checks with the seeds given as arguments (default 1); prints a line each
cd "$(dirname "$0")/.."
for s in "${@:-1}"; do
  for p in vlib/props/c*.py; do
    c=$(basename $p .py); VERIF_SEED=$s python3 run.py ${c^^} $ALL_ARGS | tail -4
  done
done
