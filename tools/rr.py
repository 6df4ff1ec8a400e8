#!/usr/bin/env python3
"""developer helper: run properties and summarise RESULT lines"""
import sys,json,subprocess,time
B='/verif/build/t_dev/debug/vh'
for p in sys.argv[1:]:
    t=time.time()
    r=subprocess.run([B,'run','--prop' if p[0]=='C' and '_' not in p else '--check',p],capture_output=True,text=True)
    for l in r.stdout.splitlines():
        if l.startswith('RESULT '):
            d=json.loads(l[7:]); print(d['check'],d['evaluations'],d['nontrivial'],d['distinct'],d['wall_ms'],'ms',d['known'] or '',json.dumps(d['violation'])[:1500])
    print(p,'rc',r.returncode,round(time.time()-t,1),r.stderr[-1500:])
