#!/bin/bash
# tools/seedtest.sh SEED_DIR : confirms a planted change in a scratch copy (build, repository tests, demo)
S="$(cd "$1" && pwd)"; W="$(mktemp -d /tmp/seedw.XXXX)"; trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/repo" && cd "$W/repo" || exit 9
bash -c "cd $W/repo && bash $S/demo.sh" >"$W/d0" 2>&1; echo "demo on clean: rc $?"
git apply "$S/patch.diff" || exit 9
bash -c "cd $W/repo && bash $S/demo.sh" >"$W/d1" 2>&1; echo "demo on patched: rc $?"; tail -2 "$W/d1"
[ "$2" = nodemo ] || [ "$2" = notests ] && exit
sed "s#^REPO=/repo#REPO=$W/repo#" /opt/vp/build.sh >"$W/build.sh"
bash "$W/build.sh" src >"$W/b.log" 2>&1 || { tail -5 "$W/b.log"; exit 8; }
mkdir -p "$W/R"; python3 /opt/vp/run_tests.py "$W/repo/_build/src" "$W/R" >"$W/lines"
python3 - "$W/lines" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
k=next(x for x in ('stable','passed','tests','stable_pass') if x in b) if isinstance(b,dict) else None
base=set(b[k] if k else b)
ok=set(l[5:].strip() for l in open(sys.argv[1]) if l.startswith('PASS '))
miss=sorted(base-ok)
print('tests: %d of %d baseline pass'%(len(base&ok),len(base)), miss[:6])
P
