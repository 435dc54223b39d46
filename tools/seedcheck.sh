#!/bin/bash
# seedcheck.sh ID [CHECK...] : runs the check of the planted change's property against a scratch copy of /repo with it
cd "$(dirname "$(readlink -f "$0")")/.."
id=$1; shift
p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
mkdir -p /tmp/seedrepo
rsync -rlpc --delete --exclude build --exclude .git /repo/ /tmp/seedrepo/ 2>/dev/null || cp -a /repo/. /tmp/seedrepo/
(cd /tmp/seedrepo && patch -s -p1 < /verif/seeded/$id/patch.diff) || exit 3
for c in ${@:-$p}; do
  VERIF_REPO=/tmp/seedrepo VERIF_BUILD=/tmp/seedbuild ./check $c 2>&1 | tail -3 | cut -c1-200
done
