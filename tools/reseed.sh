#!/bin/bash
# tools/reseed.sh [ID...]: runs each planted bug's property's check against it.
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  rm -rf /tmp/reseed; git clone -q /repo /tmp/reseed && git -C /tmp/reseed apply "$PWD/seeded/$id/patch.diff" || echo "$id does not apply"
  echo "$id $(tools/try.sh /tmp/reseed $prop)"
done
rm -rf /tmp/reseed
