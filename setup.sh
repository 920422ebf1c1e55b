#!/bin/bash
# Builds the harness crates ahead, so that a check only has to rebuild what changed (every check rebuilds what it needs).
bash /verif/build.sh algebra >/dev/null 2>&1 || { echo "harness does not build"; exit 1; }
for c in crypto stark nostd evm sched allocsched "algebra prod" "crypto prod" "stark prod"; do
  [ $SECONDS -gt 900 ] && break
  bash /verif/build.sh $c >/dev/null 2>&1 || echo "not built: $c"
done
echo ok
