#!/bin/bash
# stabcheck.sh ID...: which stable tests a seed breaks (full test suite on a patched clone)
export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MALLOC_MMAP_THRESHOLD_=4294967296 MALLOC_TRIM_THRESHOLD_=8589934592
for id in "$@"; do
 w=/tmp/st-$id; rm -rf "$w"; cp -a /repo $w; git -C $w apply /verif/seeded/$id/patch.diff || echo noapply
 (cd $w; PYTHONPATH=$w /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n ${NW:-6} --dist worksteal --timeout=600 --continue-on-collection-errors \
   --ignore=tests/functional/test_wfsc_flc.py -o junit_family=xunit2 --junitxml=/tmp/st-$id.xml tests > /tmp/st-$id.log 2>&1)
 python3 - $id <<'P'
import sys,json,xml.etree.ElementTree as E
id=sys.argv[1]
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p={c.get('classname')+'::'+c.get('name') for c in E.parse('/tmp/st-%s.xml'%id).iter('testcase') if not len([x for x in c if x.tag in('failure','error','skipped')])}
print(id,'stable broken:',sorted(s-p)[:5],len(s-p),flush=True)
P
 rm -rf "$w"
done
