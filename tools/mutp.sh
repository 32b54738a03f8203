# mutp.sh PREFIX...: the variants in three processes
cd "$(dirname "$0")/.."
for i in 0 1 2; do MUTPART=$i/3 python3 tools/mutate.py "$@" > /tmp/mutp.$i.log 2>&1 & done
wait
cat /tmp/mutp.0.log /tmp/mutp.1.log /tmp/mutp.2.log | grep -v "^wrong" > /tmp/mutp.log
grep -v "^ok" /tmp/mutp.log | cut -c1-${W:-300}
grep -c "^ok" /tmp/mutp.log
