#!/usr/bin/env python3
"""plant.py DIR : DIR holds edits.py (EDITS=[(file,old,new),...], META={property,needs,what_it_breaks}) and main.go.
Confirms in a scratch copy: builds, tests pass, demo passes without and fails with the change; writes /verif/seeded/<id>."""
import sys,os,subprocess,json,shutil,tempfile,runpy
d=os.path.abspath(sys.argv[1]); sid=os.path.basename(d)
ns=runpy.run_path(d+'/edits.py')
w=tempfile.mkdtemp(prefix='plant-',dir='/tmp')
try:
    repo=w+'/repo'
    subprocess.check_call(['git','clone','-q','/repo',repo])
    demo=w+'/demo'; os.mkdir(demo)
    shutil.copy(d+'/main.go',demo); shutil.copy('/verif/tools/demo_template.sh',demo+'/demo.sh')
    def run():
        p=subprocess.run(['bash',demo+'/demo.sh'],cwd=repo,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return p.returncode,p.stdout
    rc,o=run(); print('demo unchanged:',rc,o[-500:])
    if rc!=0: sys.exit('demo fails on unchanged tree')
    for f,a,b in ns['EDITS']:
        p=repo+'/'+f; s=open(p,'rb').read()
        if b'\r\n' in s: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
        a=a.encode(); b=b.encode()
        if s.count(a)!=1: sys.exit('%s: %d matches of %r'%(f,s.count(a),a))
        open(p,'wb').write(s.replace(a,b))
    diff=subprocess.run(['git','diff','--binary'],cwd=repo,stdout=subprocess.PIPE).stdout
    env='. /opt/vp/env.sh; export GOFLAGS=-mod=readonly; '
    p=subprocess.run(['bash','-c',env+'go vet ./internal/... 2>/dev/null; go build $(go list -e ./... | grep -Ev "$LEFT_OUT") && go test $(go list -e ./... | grep -Ev "$LEFT_OUT")'],cwd=repo,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode!=0: print(p.stdout); sys.exit('build/tests fail with the change')
    rc,o=run(); print('demo patched:',rc,o[-500:])
    if rc==0 or rc==2: sys.exit('demo does not fail with the change')
    out='/verif/seeded/'+sid; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','wb').write(diff)
    shutil.copy(demo+'/demo.sh',out); shutil.copy(demo+'/main.go',out)
    json.dump(ns['META'],open(out+'/meta.json','w'),indent=1)
    print('planted',sid)
finally:
    shutil.rmtree(w)
