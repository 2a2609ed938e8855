#!/bin/bash
# tryseed.sh ID [notest]: build a scratch copy with and without the patch, run the demo and (unless notest) the property's check against the patched tree through PMLV_REPO
id=$1; w=/tmp/ts_$id; mkdir -p $w
git -C /repo archive HEAD | tar x -C $w
[ -d /tmp/basebuild ] || { mkdir -p /tmp/basebuild; }
cd $w; git init -q .; git apply /verif/seeded/$id/patch.diff || exit 9
sed "s#/repo#$w#g" /opt/vp/pml.mk > $w/pml.mk
cd $w && make -s -f pml.mk -j8 lib > build.log 2>&1 || { echo BUILD FAIL; tail -5 build.log; exit 9; }
bash /verif/seeded/$id/demo.sh; echo "demo with patch: $? (want nonzero)"
cd /repo && bash /verif/seeded/$id/demo.sh; echo "demo without: $? (want 0)"
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
[ "$2" = notest ] || { cd /verif; PMLV_REPO=$w python3-vt -m pmlv.check $p quick | tail -12; }
rm -rf $w
