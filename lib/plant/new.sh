#!/bin/bash
# new.sh ID PROPERTY "needs" "what it breaks" < patch on stdin ; demo.rs taken from /tmp/demo.rs
here=$(cd "$(dirname "$0")" && pwd); d=/verif/seeded/$1; mkdir -p $d
cat > $d/patch.diff; cp $here/demo.sh $here/common.rs $d/; cp /verif/harness/Cargo.lock $d/demo.lock; cp /tmp/demo.rs $d/demo.rs
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
