#!/usr/bin/env python3
"""detect.py [ids...] [-p PROP ...]: run the check of each planted bug's property (or the given ones) against /repo
with the bug applied through a build overlay, so that /repo is not modified. """
import json,os,subprocess,sys,tempfile,shutil,concurrent.futures as cf
args=sys.argv[1:]; props=[]
if '-p' in args: i=args.index('-p'); props=args[i+1:]; args=args[:i]
S='/verif/seeded'; ids=args or sorted(os.listdir(S))
env=dict(os.environ,HOME='/root',GOROOT='/opt/veriftools/go1.27.3',PATH='/opt/veriftools/go1.27.3/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOFLAGS='-mod=readonly',GOPROXY='off',GOWORK='off',GOMODCACHE='/root/go/pkg/mod',GOPATH='/root/go',GOCACHE='/root/.cache/go-build')
def one(i):
    w=tempfile.mkdtemp(prefix='det-',dir='/tmp')
    try:
        fs=[l[6:].strip() for l in open(S+'/'+i+'/patch.diff',errors='replace') if l.startswith('+++ b/')]
        for f in fs:
            os.makedirs(w+'/'+os.path.dirname(f),exist_ok=True); shutil.copy('/repo/'+f,w+'/'+f)
        p=subprocess.run(['git','apply','--unsafe-paths','--directory='+w,S+'/'+i+'/patch.diff'],cwd='/',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if p.returncode: return i,'does not apply: '+p.stdout
        json.dump({'Replace':{'/repo/'+f:w+'/'+f for f in fs}},open(w+'/ov.json','w'))
        r=[]
        for p in props or [json.load(open(S+'/'+i+'/meta.json'))['property']]:
            e=dict(env,TMPDIR=w)
            b=subprocess.run(['go','build','-overlay',w+'/ov.json','-o',w+'/check','./p/'+p],cwd='/verif/h',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if b.returncode: r.append(p+': no build '+b.stdout[-300:]); continue
            if os.path.exists('/verif/h/p/'+p+'/race'):
                b=subprocess.run(['go','build','-race','-overlay',w+'/ov.json','-o',w+'/check-race','./p/'+p],cwd='/verif/h',env=dict(e,CGO_ENABLED='1'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if b.returncode: r.append(p+': no race build '+b.stdout[-300:]); continue
            pr='/verif/h/p/'+p+'/prepare.sh'
            if os.path.exists(pr):
                b=subprocess.run(['bash',pr,'/verif',w],env=dict(e,VERIF_OVERLAY=w+'/ov.json'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if b.returncode: r.append(p+': not prepared '+b.stdout[-300:]); continue
            os.makedirs(w+'/run',exist_ok=True)
            c=subprocess.run([w+'/check','-tier','quick','-seed','1','-evidence',w+'/ev.json','-replays',w+'/rp','-known','/verif/known_findings.txt'],cwd=w+'/run',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
            ls=c.stdout.splitlines(); k=[n for n,l in enumerate(ls) if l.startswith('VIOLATION')]
            r.append('%s rc=%d %s'%(p,c.returncode,' | '.join(ls[k[0]:k[0]+2])[:200] if k else ''))
        return i,'; '.join(r)
    finally: shutil.rmtree(w,ignore_errors=True)
with cf.ThreadPoolExecutor(2) as ex:
    for i,r in ex.map(one,ids): print(i,r,flush=True)
