#!/usr/bin/env python3
"""stable.py DIR : runs the stable tests of a copy of the repository; exit 1 when one no longer passes."""
import json,subprocess,sys,os,tempfile,shutil
d=sys.argv[1]
want=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t=tempfile.mkdtemp(prefix='stable')
e=open('/opt/vp/env.sh').read().replace('cd /repo','cd '+d).replace('/opt/vp/work',t+'/work')
open(t+'/env.sh','w').write(e)
open(t+'/test.sh','w').write(open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh',t+'/env.sh'))
out=t+'/o.json'
subprocess.run(['bash',t+'/test.sh',out],cwd=d,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
got=set(json.load(open(out)).get('passed',[]))
shutil.rmtree(t)
miss=sorted(want-got)
if miss: print('missing',miss[:8]); sys.exit(1)
print('ok',len(want))
