#!/usr/bin/env python3
"""run.py N [SEED [FILTER]]  applies N drawn mutants in a scratch copy and runs checks until one reports it;
prints survivors. Works in /tmp/mutrepo and /tmp/mutv (made here)."""
import sys,subprocess,os,random,shutil,time,re
R='/tmp/mutrepo'; W='/tmp/mutv'; M='/tmp/mutate'
def sh(c,cwd=R,t=900,env=None):
    e=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',**(env or {}))
    try: p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=e,text=True,errors='replace')
    except subprocess.TimeoutExpired as x: return 124,str(x.stdout)
    return p.returncode,p.stdout
sh('rm -rf /tmp/mutrepo /tmp/mutv; cp -a /repo /tmp/mutrepo; mkdir /tmp/mutv; cp -a /verif/harness /verif/run.sh /verif/known-findings.txt /verif/tools /tmp/mutv/',cwd='/')
sh("""sed -i 's#"/repo"#"/tmp/mutrepo"#' harness/cmd/vrun/main.go; sed -i 's#=> /repo#=> /tmp/mutrepo#' harness/go.mod""",cwd=W)
sh('go build -o /tmp/mutate .',cwd='/verif/tools/mutate')
ALL='C02 C06 C10 C15 C12 C16 C08 C04 C24 C11 C19 C18 C17 C22 C21 C03 C05 C07 C09 C25 C01 C26 C20 C13 C14 C27 C28 C29 C23'.split()
CORE='C02 C06 C10 C15 C12 C16 C08 C04 C24 C11 C21 C19 C22'.split()
PRI={'packet/':['C13','C14','C22'],'pkg/id':['C20'],'retry':['C18','C16'],'conn/':['C29','C15','C17','C24','C16'],'hub':['C16','C22'],'dialogue':['C29','C08','C10','C16'],'raw.go':['C01','C12','C10','C28'],
 'rpc.go':['C02','C04','C05','C03','C19'],'message.go':['C06','C07'],'server':['C25','C15'],'client':['C15','C18']}
rnd=random.Random(int(sys.argv[2]) if len(sys.argv)>2 else 1)
flt=re.compile(sys.argv[3]) if len(sys.argv)>3 else None
pts=[l.split(' ',2) for l in sh(M+' '+R+' list')[1].splitlines()]
pts=[p for p in pts if not re.search(r'example|bench|/batch/|^tools/',p[1]) and (not flt or flt.search(p[1]+' '+p[2]))]
pts=[p for p in pts if p[2]!='const' or rnd.random()<.15]
rnd.shuffle(pts)
n=0
for i,loc,op in pts:
    if n>=int(sys.argv[1]): break
    sh('git checkout -q -- .')
    d=sh(f'{M} {R} apply {i}')[1].strip()
    if sh('go build ./... && go vet -vettool=/bin/true ./packet 2>/dev/null; go build ./...')[0]: continue
    n+=1; t0=time.time(); by=''
    pri=[q for k,v in PRI.items() if k in loc for q in v]
    for q in list(dict.fromkeys(pri+(['C28'] if 'retry' in loc else CORE if not os.environ.get('FULL') else ALL))):
        rc,o=sh(f'./run.sh {q}',cwd=W,env=dict(VERIF_SEED='1',VERIF_TIER='quick',VERIF_BUDGET='100s'))
        if rc==1: by=[l for l in o.splitlines() if 'VIOLATION' in l][0].split('/')[-1]; break
        if rc!=0: by=f'{q} rc={rc} '+o[-200:]; break
    print(time.strftime('%H:%M:%S'),'killed' if by else 'SURVIVED',i,f'{time.time()-t0:.0f}s',by,'|',d,flush=True)
sh('git checkout -q -- .')
