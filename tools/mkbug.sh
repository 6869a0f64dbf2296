#!/bin/bash
# mkbug.sh ID PROP "needs" "what it breaks": take the edit made in ${MK:-/tmp/mk} (a copy of /repo) as planted bug ID
V=$(cd "$(dirname "$0")/.." && pwd); id=$1
mkdir -p $V/seeded/$id; git -C ${MK:-/tmp/mk} diff > $V/seeded/$id/patch.diff
cp $V/tools/demolib.py $V/seeded/$id/
printf '#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n' > $V/seeded/$id/demo.sh
python3 - "$@" <<'E' > $V/seeded/$id/meta.json
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
E
git -C ${MK:-/tmp/mk} checkout -q -- .
