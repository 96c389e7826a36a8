#!/bin/bash
# plant.sh ID...: validate seeded changes in a scratch copy of /repo: builds, stable tests pass, demo passes without and fails with the patch.
# CHK=1: also run the property's check against it. Usage needs /tmp/wt (created on demand); remove it when done.
W=/tmp/wt
S=/verif/seeded
if [ ! -d $W ]; then
  git -C /repo worktree list >/dev/null; mkdir -p $W
  (cd /repo && git archive HEAD) | tar x -C $W
  cd $W && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DENABLE_OPENCL=OFF -DENABLE_CUDA=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/dev/null
  git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base
fi
# bring up to date with /repo
rsync -a --checksum --exclude .git --exclude _build /repo/ $W/ 2>/dev/null || (cd /repo && git archive HEAD | tar x -C $W)
cd $W && git add -A && git -c user.name=x -c user.email=x@x commit -qm sync >/dev/null
B="ninja -C _build qrack unittest qrack_pinvoke"
for id in "$@"; do
  cd $W; git checkout -q -- . 
  if [ -z "$NOBASE" ]; then
    $B > /tmp/wt.build.log 2>&1 || { echo "$id: base build failed"; tail -5 /tmp/wt.build.log; continue; }
    timeout 300 bash $S/$id/demo.sh > /tmp/wt.demo0.log 2>&1; r0=$?
  else r0=skip; fi
  git apply $S/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
  $B > /tmp/wt.build.log 2>&1 || { echo "$id: build failed"; grep -m5 error /tmp/wt.build.log; git checkout -q -- .; continue; }
  timeout 300 bash $S/$id/demo.sh > /tmp/wt.demo1.log 2>&1; r1=$?
  python3 /opt/vp/run_tests.py $W/_build/unittest /tmp/wt.lines > /dev/null 2>&1; python3 /opt/vp/results.py /tmp/wt.json lines:/tmp/wt.lines >/dev/null 2>&1
  lost=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/wt.json'))['passed'])
l=sorted(b-t); print(len(l), l[:4])")
  else r1=skip; lost=skip; fi
  echo "$id: demo base=$r0 patched=$r1 lost tests: $lost"
  if [ -n "$CHK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")
    VP_REPO=$W timeout 900 python3 /verif/checks/run.py $p > /tmp/wt.chk.$id.log 2>&1; echo "   check $p rc=$? $(grep -c ^VIOLATION /tmp/wt.chk.$id.log) $(grep -m1 '  case' /tmp/wt.chk.$id.log)"
  fi
  git checkout -q -- .
done
