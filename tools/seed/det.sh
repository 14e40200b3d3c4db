# detection: runs the property's check against a patched copy
cd /verif
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 rm -rf /tmp/det; git clone -q /repo /tmp/det; git -C /tmp/det apply /verif/seeded/$d/patch.diff
 s=$(date +%s); NLCG_REPO=/tmp/det timeout 900 python3-vt engine/run.py $p quick > /tmp/seed/$d.log 2>&1; rc=$?
 echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seed/$d.log)"
done
