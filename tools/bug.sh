#!/bin/bash
# bug.sh new NAME | bug.sh confirm NAME [notests]   (development helper: plant and confirm a bug in a scratch copy)
set -u
W=/tmp/w/m_$2
case $1 in
new) bash /tmp/w/wt.sh "$2";;
confirm)
  D=/verif/seeded/$2; mkdir -p "$D"
  git -C "$W" diff > "$D/patch.diff"
  git -C /repo apply --check "$D/patch.diff" || exit 1
  (cd /repo && bash "$D/demo.sh" >/tmp/w/demo_ok.log 2>&1); a=$?
  (cd "$W" && bash "$D/demo.sh" >/tmp/w/demo_bad.log 2>&1); b=$?
  echo "demo: unchanged=$a changed=$b"; tail -2 /tmp/w/demo_bad.log | cut -c1-300
  [ $a = 0 ] && [ $b != 0 ] || { tail -5 /tmp/w/demo_ok.log; echo "DEMO WRONG"; exit 1; }
  [ "${3:-}" = notests ] && exit 0
  sed "s#cd /repo#cd $W#; s#/opt/vp/reports#/tmp/w/rep_$2#" /opt/vp/test.sh > /tmp/w/test_$2.sh
  bash /tmp/w/test_$2.sh /tmp/w/out_$2.json > /tmp/w/test_$2.log 2>&1
  python3 - "$2" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(f'/tmp/w/out_{sys.argv[1]}.json'))
g=lambda x:set(next(x[k] for k in ('passed','stable','tests','pass') if k in x))
m=sorted(g(b)-g(o)); print('tests', 'OK' if not m else f'BROKEN {len(m)} {m[:5]}')
P
  ;;
check) # run check(s) on the scratch copy: bug.sh check NAME ID...
  n=$2; shift 2
  for p in "$@"; do (cd /verif && NEPS_REPO=/tmp/w/m_$n python3 check.py $p > /tmp/w/chk_${n}_$p.log 2>&1; echo "$n $p exit=$? $(grep -m1 VIOLATION /tmp/w/chk_${n}_$p.log | cut -c1-200)"); done;;
esac
