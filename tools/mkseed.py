#!/usr/bin/env python3
"""mkseed.py: (re)creates /verif/seeded/<id>/{patch.diff,meta.json,build.sh,setup.hh,demo.sh} from seeds.py."""
import sys, os, subprocess, shutil, json, tempfile
sys.path.insert(0, os.path.dirname(__file__))
import seeds
only = sys.argv[1:]
for sid, s in seeds.SEEDS.items():
    if only and sid not in only: continue
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    for f in ('build.sh', 'setup.hh'):
        shutil.copy('/verif/tools/demo_common/' + f, d)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
set -- "$(dirname "$(realpath "$0")")/demo.cc" %s
. "$(dirname "$(realpath "${BASH_SOURCE[0]}")")/build.sh"
''' % s.get('np', 1))
    t = tempfile.mkdtemp(dir='/tmp')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
    out = ''
    for f, pairs in s['edits'].items():
        a = open('/repo/' + f).read(); b = a
        for old, new in pairs:
            assert b.count(old) == 1, (sid, f, b.count(old), old)
            b = b.replace(old, new)
        for side, txt in (('a', a), ('b', b)):
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(txt)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True)
    open(d + '/patch.diff', 'w').write(r.stdout)
    c = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True)
    print(sid, c.returncode, c.stderr.strip())
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
