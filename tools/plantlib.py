"""plantlib: writes and verifies planted bugs under /verif/seeded (never read by any check)."""
import os, subprocess, tempfile, shutil, json, sys
ROOT='/verif/seeded'
ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=readonly', GOWORK='off', CGO_ENABLED='0')
DEMO='''#!/bin/bash
# runs the demonstration beside this file against the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=%(cgo)s
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cat >"$scratch/overlay.json" <<EOF
{"Replace": {"$PWD/zz_planted_demo_test.go": "$here/demo_test.go.txt"}}
EOF
go test%(flags)s -overlay "$scratch/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestPlantedDemo$' .
'''
def diff(edits):
    d=tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
        for f,old,new in edits:
            p=os.path.join(d,'r',f); s=open(p).read()
            if old not in s: raise Exception('not found in %s: %s'%(f,old))
            s=s.replace(old,new,1); open(p,'w').write(s)
        x=subprocess.run(['gofmt','-l','.'],cwd=d+'/r',capture_output=True,text=True).stdout
        if x.strip(): print('  gofmt:',x.strip())
        return subprocess.run(['git','diff'],cwd=d+'/r',capture_output=True,text=True).stdout
    finally: shutil.rmtree(d)
def create(id,prop,needs,breaks,edits,demo,race=False):
    d=os.path.join(ROOT,id); os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff(edits))
    open(d+'/demo_test.go.txt','w').write(demo.strip()+'\n')
    open(d+'/demo.sh','w').write(DEMO%dict(cgo='1' if race else '0',flags=' -race' if race else ''))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
def verify(id):
    d=os.path.join(ROOT,id); w=tempfile.mkdtemp(dir='/tmp'); r=w+'/r'
    try:
        subprocess.run(['cp','-a','/repo',r],check=True)
        ok=[]
        x=subprocess.run([d+'/demo.sh'],cwd=r,env=ENV,capture_output=True,text=True)
        if x.returncode!=0: return 'DEMO FAILS ON CLEAN TREE\n'+x.stdout[-1500:]+x.stderr[-800:]
        x=subprocess.run(['git','apply',d+'/patch.diff'],cwd=r,capture_output=True,text=True)
        if x.returncode!=0: return 'PATCH DOES NOT APPLY '+x.stderr
        x=subprocess.run(['go','build','./...'],cwd=r,env=ENV,capture_output=True,text=True)
        if x.returncode!=0: return 'DOES NOT BUILD '+x.stderr
        x=subprocess.run(['go','test','-json','-vet=off','-count=1','./...'],cwd=r,env=ENV,capture_output=True,text=True)
        st={}
        for l in x.stdout.splitlines():
            try: e=json.loads(l)
            except ValueError: continue
            if e.get('Test') and e.get('Action') in('pass','fail'):
                k=e['Package']+'/'+e['Test']; st[k]=st.get(k,True) and e['Action']=='pass'
        miss=[t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if not st.get(t)]
        if miss: return 'TESTS FAIL: %d %s'%(len(miss),miss[:4])
        x=subprocess.run([d+'/demo.sh'],cwd=r,env=ENV,capture_output=True,text=True)
        if x.returncode==0: return 'DEMO PASSES WITH PATCH'
        # every removed line must be a line of the original repository
        return 'ok   '+' | '.join(l.strip() for l in (x.stdout).splitlines() if 'demo_test' in l or 'DATA RACE' in l or 'panic:' in l)[:160]
    finally: shutil.rmtree(w)
if __name__=='__main__':
    ids=sys.argv[1:] or sorted(os.listdir(ROOT))
    for i in ids: print(i,verify(i),flush=True)
