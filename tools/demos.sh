#!/bin/bash
# tools/demos.sh id...: runs each demo against a clean clone and against a clone with the patch (no repository build)
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p /tmp/demotree; rm -rf /tmp/demotree/clean; git clone -q /repo /tmp/demotree/clean
for id in "$@"; do
  rm -rf "/tmp/demotree/$id"; git clone -q /repo "/tmp/demotree/$id"; git -C "/tmp/demotree/$id" apply "$here/seeded/$id/patch.diff" || echo "$id does not apply"
  t0=$SECONDS
  (cd /tmp/demotree/clean && timeout 300 bash "$here/seeded/$id/demo.sh" >/tmp/demotree/$id.clean 2>&1); a=$?
  t1=$SECONDS
  (cd "/tmp/demotree/$id" && timeout 300 bash "$here/seeded/$id/demo.sh" >/tmp/demotree/$id.patched 2>&1); b=$?
  echo "$id clean rc=$a $((t1-t0))s patched rc=$b $((SECONDS-t1))s: $(grep -m1 -E 'violation in' /tmp/demotree/$id.patched | cut -c1-200)"
  rm -rf "/tmp/demotree/$id"
done
