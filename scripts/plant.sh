#!/bin/bash
# plant.sh ID PROP PKG : uses /tmp/plant/ID/{edit.py,demo_test.go,meta} ; edit.py runs in copy dir
id=$1; prop=$2; pkg=$3
src=/tmp/plant/$id
source /opt/vp/env.sh; export GOSUMDB=off
rm -rf /tmp/wt; cp -a /repo /tmp/wt; cd /tmp/wt
python3 $src/edit.py || { echo EDIT FAILED; exit 1; }
gofmt -l $(git diff --name-only)
git diff > $src/patch.diff
go build ./... || exit 1
dst=/verif/seeded/$id; mkdir -p $dst
cp $src/patch.diff $dst/; cp $src/demo_test.go $dst/demo_test.go.txt
cat > $dst/demo.sh <<X
#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
d=\$(cd "\$(dirname "\$0")" && pwd)
source /opt/vp/env.sh 2>/dev/null
export GOSUMDB=off
t=\$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.go.txt" "\$t/zz_demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$t/zz_demo_test.go\"}}" > "\$t/o.json"
go test -overlay "\$t/o.json" -run 'TestZZDemo' -count=1 ${4} ./$pkg
X
chmod +x $dst/demo.sh
python3 - <<P
import json
m=dict(property="$prop")
for l in open("$src/meta"):
    k,v=l.strip().split(": ",1); m[k]=v
json.dump(m,open("$dst/meta.json","w"),indent=1)
P
(cd /repo && bash $dst/demo.sh >/tmp/demo0.log 2>&1); echo "demo clean rc $?"
(cd /tmp/wt && bash $dst/demo.sh >/tmp/demo1.log 2>&1); echo "demo patched rc $?"; tail -5 /tmp/demo1.log
sed 's#cd /repo#cd /tmp/wt#' /opt/vp/test.sh > /tmp/wttest.sh; bash /tmp/wttest.sh /tmp/wtout.json >/dev/null 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/wtout.json'))
print('stable tests missing:', sorted(b-set(o['passed']))[:5])
P
cd /tmp/wt && /tmp/skcheck -prop $prop -repo /tmp/wt -dir /tmp/wtd | tail -8
rm -rf /tmp/wt
