h=$1; shift
for c in "$@"; do echo "== $c"; VP_BUDGET=${VP_BUDGET:-60} timeout 300 python3 /verif/checks/dbg.py $h $c 2>&1 | tail -${LINES_:-12}|cut -c1-${COLS_:-600} > /tmp/dbgout; cat /tmp/dbgout; if grep -q "compile failed" /tmp/dbgout; then break; fi; done
