#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": (patch from git diff in /tmp/seed/repo, demo.rs from stdin)
set -eu
D=/verif/seeded/$1; mkdir -p "$D"
git -C /tmp/seed/repo diff > "$D/patch.diff"
cat > "$D/demo.rs"
cp /verif/lib/Cargo.lock.base "$D/Cargo.lock"; cp /verif/tools/seedtpl/${TPL:-demo}.sh "$D/demo.sh"; chmod +x "$D/demo.sh"
python3 - "$@" <<'P' > "$D/meta.json"
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C /tmp/seed/repo checkout -q -- .
