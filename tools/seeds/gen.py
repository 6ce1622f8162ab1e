#!/usr/bin/env python3
"""gen.py [-c] [ID...]  makes /verif/seeded/<id> from the definitions and confirms it
-c: only run the property's check against those already made
works in the copies made by scratch.sh"""
import sys,subprocess,os,json,shutil,importlib.util,glob,time
here=os.path.dirname(os.path.abspath(__file__)); R='/tmp/seedrepo'; OUT='/verif/seeded'; W='/tmp/vcopy'; RES=here+'/results.json'
S=[]
for f in sorted(glob.glob(here+'/defs*.py')):
    sp=importlib.util.spec_from_file_location('d',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); S+=m.S
def sh(c,cwd=R,t=600,env=None):
    e=dict(os.environ); e.update(GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off'); e.update(env or {})
    try: p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=e,text=True,errors='replace')
    except subprocess.TimeoutExpired as x: return 124,str(x.stdout)[-500:]
    return p.returncode,p.stdout
def clean(): sh('git checkout -q -- .')
def check(s):
    d=f'{OUT}/{s["id"]}'; rc,o=sh(f'git apply {d}/patch.diff')
    if rc: return 'NOAPPLY '+o
    t0=time.time()
    rc,o=sh(f'./run.sh {s["prop"]}',cwd=W,t=900,env=dict(VERIF_SEED='1',VERIF_TIER='quick'))
    clean()
    v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
    j=json.load(open(RES)) if os.path.exists(RES) else {}
    e=j.setdefault(s['id'],{})
    if rc==1 and v: e['by']=v[0].split('/')[-1].rsplit('-',1)[0].replace('-',' ',1)
    elif rc==0: e['by']='missed'; e['missed']=True
    else: e['by']=f'rc {rc}'
    json.dump(j,open(RES,'w'),indent=1,sort_keys=True)
    return f'check rc={rc} {time.time()-t0:.0f}s {v[:1]}'
def demo(s): return sh(f'bash {OUT}/{s["id"]}/demo.sh',t=300)
def original(diff):
    # does it change lines of the base commit?
    f=None; n=0; cur=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]; bl=[x.startswith('^') for x in sh(f'git blame -s c023727..HEAD {f}')[1].splitlines()]
        elif l.startswith('@@'): cur=int(l.split()[1][1:].split(',')[0])-1
        elif l.startswith('-') and not l.startswith('---'):
            if bl[cur] and l[1:].strip(): n+=1
            cur+=1
        elif l.startswith(' '): cur+=1
    return n
def make(s):
    d=f'{OUT}/{s["id"]}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    imps='\n'.join('\t'+i.strip() for i in s['imports'].splitlines())
    base=['"context"','"io"','"testing"','"time"','"github.com/singchia/geminio"']
    open(d+'/demo_test.go','w').write('package zzdemo\n\nimport (\n\t'+'\n\t'.join(base)+'\n'+imps+'\n)\n\nvar _ = context.Background\nvar _ io.Reader\nvar _ time.Duration\nvar _ geminio.End\n'+s['demo'])
    sh(f'gofmt -w {d}/demo_test.go')
    shutil.copy(here+'/util_test.go',d)
    open(d+'/demo.sh','w').write(open(here+'/demo.sh').read().replace('@RACE@','-race' if s['race'] else '""'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    for k in range(3):
        rc,o=demo(s)
        if rc: return f'DEMO FAILS CLEAN rc={rc}: '+o[-600:]
    for f,a,b in s['edits']:
        p=R+'/'+f; x=open(p).read()
        if x.count(a)!=1: clean(); return f'EDIT {f}: {x.count(a)} matches of {a[:60]!r}'
        open(p,'w').write(x.replace(a,b))
    rc,o=sh('gofmt -l application client conn multiplexer packet pkg server options'); 
    bad=[f for f,_,_ in s['edits'] if f in o.split()]
    diff=sh('git diff')[1]
    open(d+'/patch.diff','w').write(diff)
    n=original(diff)
    if not n: clean(); return 'NO ORIGINAL LINE'
    rc,o=sh('bash '+here+'/stable.sh')
    m=[l for l in o.splitlines() if 'missing' in l]
    if not m or 'missing: []' not in m[0]: clean(); return 'TESTS '+o[-500:]
    res=[]
    for k in range(3):
        rc,o=demo(s); res.append(rc)
    clean()
    tail=[l for l in o.splitlines() if '.go:' in l or 'panic' in l or 'RACE' in l][:1]
    return f'orig={n} fmt={bad} demo={res} {tail}'
ids=[a for a in sys.argv[1:] if a!='-c']
for s in S:
    if ids and s['id'] not in ids: continue
    if sh('git status --short')[1].strip(): sys.exit('repo dirty')
    r=''
    if '-c' not in sys.argv: r=make(s)
    ok='demo=' in r and '0' not in r.split('demo=[')[1].split(']')[0].replace(' ','').split(',') or '-c' in sys.argv
    if ok: r+=' | '+check(s)
    if not ok: shutil.rmtree(f'{OUT}/{s["id"]}',ignore_errors=True)
    print(time.strftime('%H:%M:%S'),s['id'],r,flush=True)
