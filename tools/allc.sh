cd /verif
ls_=$(python3 -c "
import sys;sys.path.insert(0,'sa')
from registry import CHECKS;print(*sorted(CHECKS))")
echo $ls_ | tr ' ' '\n' | xargs -P 4 -I{} sh -c 'python3 check.py {} > /tmp/allc.{}.txt 2>&1; echo "$? $(grep obligations /tmp/allc.{}.txt)"' | sort -k2 | cut -c1-150
