#!/bin/bash
# mkseed.sh ID PROPERTY PKG NEEDS BREAKS
# Captures the diff in the scratch copy /tmp/sw/repo (made by "mkseed.sh start") as
# /verif/seeded/ID (demo_test.go must be there already), then validates it.
set -u
V=/verif
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
if [ "$1" = start ]; then rm -rf /tmp/sw; mkdir -p /tmp/sw; cp -a /repo /tmp/sw/repo; exit; fi
ID=$1; S=$V/seeded/$ID; mkdir -p "$S"
if [ $# -gt 1 ]; then
  P=$2; PKG=$3
  git -C /tmp/sw/repo diff > "$S/patch.diff"
  [ -s "$S/patch.diff" ] || { echo "empty diff"; exit 1; }
  python3 - "$S" "$P" "$4" "$5" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
PY
  if [ ! -f "$S/demo.sh" ]; then cat > "$S/demo.sh" <<SH
#!/bin/bash
# exit 0: the property holds in this demonstration
D="\$(cd "\$(dirname "\$0")" && pwd)"
PKG=$PKG
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" TMPDIR="\$T"
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$PKG" "\$D" > "\$T/overlay.json"
timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "\$T/overlay.json" -run '^TestDemo\$' "./\$PKG"
SH
  chmod +x "$S/demo.sh"; fi
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf /tmp/sv; mkdir -p /tmp/sv; cp -a /repo /tmp/sv/repo; cd /tmp/sv/repo || exit 1
git checkout -q -- . 
bash "$S/demo.sh" > /tmp/sv/demo0.log 2>&1 || { echo "$ID: demo fails on the unchanged tree"; tail -5 /tmp/sv/demo0.log; exit 1; }
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
go build ./... || { echo "$ID: does not build"; exit 1; }
bash "$S/demo.sh" > /tmp/sv/demo1.log 2>&1 && { echo "$ID: demo passes with the patch"; exit 1; }
grep -q "build failed\|setup failed" /tmp/sv/demo1.log && { echo "$ID: demo does not build"; tail -5 /tmp/sv/demo1.log; exit 1; }
GODEBUG=randautoseed=0 go test -json -vet=off -count=1 ./... > /tmp/sv/t.json
python3 - <<'PY'
import json
st=json.load(open('/opt/vp/BASELINE.json'))['stable']; ok=set()
for l in open('/tmp/sv/t.json'):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
miss=[s for s in st if s not in ok]
print("stable tests failing with the patch:",miss) if miss else None
raise SystemExit(1 if miss else 0)
PY
[ $? = 0 ] || { echo "$ID: breaks stable tests"; exit 1; }
VERIF_REPO=/tmp/sv/repo VERIF_SEED=1 "$V/check.sh" "$P" quick > /tmp/sv/check.log 2>&1; rc=$?
echo "$ID ($P): valid; check exit $rc; $(grep VIOLATION /tmp/sv/check.log | sed 's/replay=[^ ]*//')"
grep -h "obligation not\|failing input" /tmp/sv/check.log | cut -c1-200 | head -${SHOW:-4}
rm -rf /tmp/sv
