#!/bin/bash
# fixcommit.sh PROP "commit message" "what failed": test and commit a repair of /repo, record it
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 /verif/tools/stable.py /tmp/o.json | tee /tmp/stable.out
grep -q "broken: none" /tmp/stable.out || exit 1
git -C /repo commit -qam "fix: $2" && python3 /verif/tools/fixed.py "$1" "$3" && git -C /repo status --short
