#!/bin/bash
# catch.sh [ID..]: which check catches which planted bug -> tools/caught.json (works on copies of /repo)
cd "$(dirname "$0")/.." || exit 1
for id in ${@:-$(ls seeded)}; do
  D=$(mktemp -d /tmp/catXXXXXX); cp -a /repo $D/r; (cd $D/r && git apply /verif/seeded/$id/patch.diff) || echo "patch $id"
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$D/r ./run.py $P > $D/out 2>&1
  python3 - "$id" "$P" $D/out <<'P'
import json,re,sys,os
f='tools/caught.json'; c=json.load(open(f)) if os.path.exists(f) else {}
m=re.search(r'VIOLATION property=\S+.*\n\s+harness (.*?), claim "(.*?)"', open(sys.argv[3]).read())
c[sys.argv[1]]='%s, harness `%s`: "%s"'%(sys.argv[2],m.group(1),m.group(2)) if m else 'not caught'
json.dump(c,open(f,'w'),indent=1,sort_keys=True); print(sys.argv[1],c[sys.argv[1]])
P
  rm -rf $D
done
