#!/bin/bash
# confirm.sh ID...: builds each planted change in a scratch copy that is bind-mounted over /repo in a
# private mount namespace, runs the stable tests and the demonstration with and without it.
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/confirm.$id
  mkdir -p $W; rsync -a --delete /repo/ $W/
  unshare -Urm bash -c '
    mount --bind '$W' /repo; cd /repo
    bash '$S'/demo.sh >/tmp/confirm.'$id'.log 2>&1; echo "'$id' demo unchanged: exit $?"
    git apply '$S'/patch.diff || { echo "'$id' patch does not apply"; exit 1; }
    bash /opt/vp/test.sh '$W'/o.json >>/tmp/confirm.'$id'.log 2>&1
    python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; o=json.load(open("'$W'/o.json"))
m=[x for x in b if x not in set(o["passed"])]
print("'$id' tests not passing:", len(m), m[:4])
P
    timeout 300 bash '$S'/demo.sh >>/tmp/confirm.'$id'.log 2>&1; echo "'$id' demo patched: exit $?"
  '
  case "$W" in /tmp/confirm.*) rm -rf "$W";; esac
done
