#!/bin/bash
# development helper: turns the uncommitted change in the scratch worktree /tmp/seedrepo into /verif/seeded/<id>/
# usage: mkseed.sh ID PROPERTY "needs" "what it breaks" < demo.cpp
set -e
ID=$1 PROP=$2; D=/verif/seeded/$ID; mkdir -p $D
cat > $D/demo.cpp
git -C /tmp/seedrepo diff > $D/patch.diff; [ -s $D/patch.diff ]
cat > $D/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -O1 -w -DOPENGM_DEBUG=1 $(cat "$D/flags" 2>/dev/null) -I include "$D/demo.cpp" -o "$T/demo" $(cat "$D/libs" 2>/dev/null) || exit 3
cd "$T" && timeout 120 ./demo
X
chmod +x $D/demo.sh
python3 - "$ID" "$PROP" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
(cd /repo && bash $D/demo.sh >/tmp/seed.out 2>&1) && echo "clean: pass" || { echo "clean: FAIL"; tail -5 /tmp/seed.out; }
(cd /tmp/seedrepo && bash $D/demo.sh >/tmp/seed.out 2>&1) && echo "patched: PASSES (bad)" || { echo "patched: fails (good)"; tail -2 /tmp/seed.out; }
(cd /verif && OGM_REPO=/tmp/seedrepo timeout 900 python3 check.py $PROP 2>&1 | grep -v "^  what\|^  code" | tail -6)
git -C /tmp/seedrepo checkout -q -- .
