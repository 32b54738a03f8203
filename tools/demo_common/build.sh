# build.sh SRC OUT NPROC [ARGS]: compile SRC against the library built in /repo/_build, run it on NPROC processes.
# sourced by demo.sh (cwd /repo). Everything it writes goes to a scratch folder it removes.
. /opt/vp/env.sh
SRC=$1; NP=${2:-1}; shift; shift
D=$(mktemp -d /tmp/mfmgdemo.XXXXXX)
trap 'cd /; rm -rf "$D"' EXIT
python3 - "$SRC" "$D" <<'P'
import re, sys, subprocess, os
src, d = sys.argv[1], sys.argv[2]
t = open('/repo/_build/build.ninja').read()
o = re.search(r'build tests/CMakeFiles/test_hierarchy\.dir/test_hierarchy\.cc\.o:.*?\n\n', t, re.S).group(0)
v = lambda k, s: (re.search(r'^\s*' + k + r' = (.*)$', s, re.M) or [None, ''])[1]
c = re.search(r'build tests/test_hierarchy:.*?\n\n', t, re.S).group(0)
cmd = 'g++ %s %s %s -I/repo/tests -c %s -o %s/demo.o' % (v('FLAGS', o), v('INCLUDES', o).replace('-isystem /repo/include', '-I/repo/include'), '-w', src, d)
r = subprocess.run(cmd, shell=True, cwd='/repo/_build')
if r.returncode: sys.exit(3)
r = subprocess.run('g++ %s %s/demo.o -o %s/demo %s' % (v('LINK_FLAGS', c), d, d, v('LINK_LIBRARIES', c)), shell=True, cwd='/repo/_build')
sys.exit(4 if r.returncode else 0)
P
[ $? = 0 ] || { echo "demo does not build"; exit 5; }
cd "$D"
mpiexec -n "$NP" ./demo "$@"
RC=$?
echo "demo exit $RC"
exit $RC
