#!/bin/bash
# plant.sh ID PROP PKG NEEDS BREAKS: takes the edits made in the scratch copy /tmp/sr and the
# test /tmp/demo_test.go, stores them as a planted bug, and confirms it (build, tests, demo both ways),
# then runs the property's check against it.
set -u
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5
D=/verif/seeded/$id; mkdir -p "$D"
git -C /tmp/sr diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no edit"; exit 2; }
cp /tmp/demo_test.go "$D/demo_test.go"
cat > "$D/demo.sh" <<X
#!/bin/bash
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d)
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$d" > "\$t/o.json"
go test -overlay "\$t/o.json" -vet=off -count=1 ${RACE:-} -timeout 200s -run '^TestDemo' ./$pkg
r=\$?
rm -rf "\$t"
exit \$r
X
python3 - "$D/meta.json" "$prop" "$needs" "$breaks" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
X
cd /tmp/sr || exit 2
go build ./... || { echo "BAD: does not build"; exit 1; }
go test -json -vet=off -count=1 ./... > /tmp/plant.log 2>/dev/null
python3 - <<'X' || { echo "BAD: existing tests fail"; exit 1; }
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set(); bad=set()
for l in open('/tmp/plant.log',errors='replace'):
    try: d=json.loads(l)
    except ValueError: continue
    if d.get('Test'):
        k=d['Package']+'/'+d['Test']
        if d['Action']=='pass': ok.add(k)
        if d['Action']=='fail': bad.add(k)
m=[x for x in st if x in bad or x not in ok]
if m: print(m[:8]); sys.exit(1)
X
bash "$D/demo.sh" > /tmp/plant.demo 2>&1 && { echo "BAD: demo passes with the patch"; exit 1; }
tail -5 /tmp/plant.demo
git stash -q
bash "$D/demo.sh" > /tmp/plant.demo 2>&1 || { echo "BAD: demo fails on the clean tree"; tail -5 /tmp/plant.demo; git stash drop -q; exit 1; }
git stash drop -q
git -C /repo apply "$D/patch.diff" || { echo BAD apply; exit 1; }
( cd /verif; time bash check.sh $prop ) 2>&1 | tail -12
git -C /repo checkout -q -- .
