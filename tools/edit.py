#!/usr/bin/env python3
"""edit.py OUT FILE OLD NEW [FILE OLD NEW ...]: writes the git diff of textual replacements on /repo to OUT."""
import sys,subprocess,tempfile,shutil,os
out=sys.argv[1]; a=sys.argv[2:]
d=tempfile.mkdtemp(dir='/tmp')
subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
for i in range(0,len(a),3):
    p=os.path.join(d,'r',a[i]); s=open(p).read()
    if s.count(a[i+1])<1: sys.exit('not found in '+a[i]+': '+a[i+1])
    s=s.replace(a[i+1],a[i+2],1); open(p,'w').write(s)
subprocess.run(['gofmt','-l','.'],cwd=d+'/r')
r=subprocess.run(['git','diff'],cwd=d+'/r',capture_output=True,text=True).stdout
open(out,'w').write(r); shutil.rmtree(d)
