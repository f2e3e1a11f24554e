#!/bin/bash
# mk1.sh LIST.py NAME OUTDIR -- development aid: dump both runtimes for one edit of LIST.py
D=$3; mkdir -p $D/cache; [ -e $D/cache/mirdump ] || cp -r /verif/.cache/mirdump $D/cache/
BENCH=$D python3 - "$1" "$2" <<'P'
import sys,os
L,N=sys.argv[1:3]
sys.argv=['bench.py']
sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/engine')
import runpy
src=open('/verif/tools/bench.py').read().split("if __name__")[0]
ns={'__file__':'/verif/tools/bench.py','__name__':'b'}
exec(compile(src,'bench','exec'),ns)
M=runpy.run_path(L)['M']
for n,e,ed in M:
    if n==N:
        os.environ['VERIF_REPO']=ns['apply'](n,ed)
        import check
        check.REPO=os.environ['VERIF_REPO']
        print(check.dumps())
P
