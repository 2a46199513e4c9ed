#!/bin/bash
# replays a file and symbolises the report
exe=$(ls -t /verif/build/sim-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" $1)-* | head -1)
LC_ALL=C $exe replay $1 --verbose 1 | python3 -c "
import sys,re,subprocess
exe='$exe'
out=[]
for l in sys.stdin:
    m=re.search(r'\(.*/sim-[^+]*\+(0x[0-9a-f]+)\)',l)
    if m:
        r=subprocess.run(['llvm-symbolizer-18','--obj='+exe,'-C','--basenames',m.group(1)],capture_output=True,text=True).stdout.split('\n')
        fr=[(r[i],r[i+1]) for i in range(0,len(r)-1,2) if r[i]]
        l='   '+' <- '.join(f[0][:90]+' '+f[1] for f in fr)+'\n'
    sys.stdout.write(l[:400] + ('' if l.endswith('\n') and len(l)<=400 else '\n'))
"
