#!/bin/sh
# regenerates spec/builtin.json and spec/small.json from the specification
cd "$(dirname "$0")/../spec" || exit 1
t=$(mktemp -d)
EXPORT_FILE=$t/b.json EXPORT_FILE2=$t/s.json java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -noTE -metadir "$t/meta" -config Export.cfg Export.tla > "$t/log" || cat "$t/log"
python3 - "$t" <<'P'
import json, sys
for a, b in (("b", "builtin"), ("s", "small")):
    json.dump(json.load(open(f"{sys.argv[1]}/{a}.json")), open(f"{b}.json", "w"), sort_keys=True, separators=(",", ":"))
P
rm -r "$t"
