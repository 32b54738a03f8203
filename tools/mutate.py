#!/usr/bin/env python3
"""mutate.py [NAME-PREFIX...]: apply each textual variant of tools/mutants.py to a scratch copy of /repo's sources
and run the checks it names; 'bad' variants must be reported, 'quiet' ones must not be."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import MUTANTS  # noqa: E402

PART, OF = [int(x) for x in os.environ.get("MUTPART", "0/1").split("/")]
R = "/tmp/varrepo" + (str(PART) if OF > 1 else "")


def main():
    want = sys.argv[1:]
    wrong = 0
    todo = [m for m in MUTANTS if not want or any(m["id"].startswith(w) for w in want)]
    for m in todo[PART::OF]:
        os.makedirs(R, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "/repo/include", "/repo/source", R + "/"], check=True)
        bad = None
        for fn, old, new in m["edits"]:
            p = os.path.join(R, fn)
            s = open(p).read()
            n = s.count(old)
            if n == 0:
                bad = "text not found in %s: %r" % (fn, old[:60])
                break
            s = s.replace(old, new) if m.get("all") else s.replace(old, new, 1)
            open(p, "w").write(s)
        if bad:
            print("?? %-28s %s" % (m["id"], bad))
            wrong += 1
            continue
        for c in m["checks"]:
            r = subprocess.run([sys.executable, os.path.join(os.path.dirname(HERE), "check.py"), c],
                               env=dict(os.environ, MFMG_REPO=R, MFMG_SA_KEEP="20"), capture_output=True, text=True)
            good = r.returncode == (1 if m["expect"] == "bad" else 0)
            wrong += not good
            why = [l.strip() for l in r.stdout.splitlines() if "violated:" in l or "undecided:" in l or "broken" in l]
            print("%s %-28s %s exit %d  %s" % ("ok" if good else "!!", m["id"], c, r.returncode,
                                              " | ".join(w[:170] for w in why[:3 if good else 8])))
            if r.returncode not in (0, 1):
                print(r.stdout[-600:], r.stderr[-900:])
            sys.stdout.flush()
    print("wrong:", wrong)


main()
