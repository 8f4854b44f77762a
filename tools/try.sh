#!/bin/bash
# try.sh PATCH|ID|- [CHECK...]: runs checks of a copy of /verif against a scratch clone of
# /repo with a patch applied (- for none), leaving /repo alone. SLOT picks the scratch copy,
# TIER the tier. Used to develop the checks; the registered checks always run against /repo.
set -u
p="$1"; shift
slot="${SLOT:-0}"; S="/tmp/vx$slot"; V="$S/verif"; R="$S/repo"
mkdir -p "$V"
[ -d "$R" ] || { git clone -q /repo "$R"; cp /repo/Cargo.lock "$R"; }
git -C "$R" fetch -q origin && git -C "$R" reset -q --hard origin/HEAD
for d in harness conc mem prof run.sh known_findings.txt; do
  python3 - "/verif/$d" "$V/$d" "$R" <<'P'
import os,sys
s,t,r=sys.argv[1:]
def cp(a,b):
    x=open(a,'rb').read()
    if a.endswith('Cargo.toml'): x=x.replace(b'"/repo"',f'"{r}"'.encode())
    if a.endswith('mon.rs') or a.endswith('run.sh'): x=x.replace(b'at /repo',f'at {r}'.encode())
    if os.path.exists(b) and open(b,'rb').read()==x: return
    os.makedirs(os.path.dirname(b),exist_ok=True); open(b,'wb').write(x); os.chmod(b,os.stat(a).st_mode)
if os.path.isfile(s): cp(s,t)
for q,ds,fs in os.walk(s):
    if '/target' in q: continue
    for f in fs: cp(os.path.join(q,f),t+os.path.join(q,f)[len(s):])
P
done
if [ "$p" != - ]; then
  f="$p"; [ -d "/verif/seeded/$p" ] && f="/verif/seeded/$p/patch.diff"
  git -C "$R" apply "$f" || exit 3
  [ $# = 0 ] && set -- "$(python3 -c "import json;print(json.load(open('/verif/seeded/$p/meta.json'))['property'])")"
fi
for c in "$@"; do
  out="$(cd "$V" && ./run.sh "$c" "${TIER:-quick}" 2>&1)"; rc=$?
  echo "$p $c exit=$rc $(grep -E '^(observed|VIOLATION|no verdict)' <<<"$out" | cut -c1-330 | tr '\n' ' ')"
  [ $rc = 2 ] && tail -5 <<<"$out"
  [ -n "${SHOW:-}" ] && [ $rc = 0 ] && echo "$out" | head -3
done
exit 0
