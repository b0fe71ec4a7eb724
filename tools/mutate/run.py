import sys,os,subprocess,json,tempfile,shutil,re,time
from concurrent.futures import ThreadPoolExecutor
# Mutation testing: run.py OUT.jsonl FILE:CHECK,CHECK ... runs the checks against every first-order mutant of /repo/FILE
# (through overlays, /repo is not touched). Setup, once: a directory /tmp/mt with
#   cp -a /verif/harness /tmp/mt/h; sed -i 's/e.violations >= 3/e.violations >= 1/' /tmp/mt/h/mc/mc.go
#   (cd /verif/tools/mutate && go build -o /tmp/mt/mt .); (cd /tmp/mt/h && go build -o /tmp/mt/plain .)
# env: W parallel mutants, G GOMAXPROCS of each, LIM time limit of each check's spaces, ONLY function regexp, SKIP kinds
out=sys.argv[1]; W=int(os.environ.get('W','4')); G=os.environ.get('G','2'); SKIP=os.environ.get('SKIP','iftrue').split(',')
LIM=os.environ.get('LIM','60s')
ONLY=os.environ.get('ONLY')
env0=dict(os.environ,GOFLAGS='-mod=readonly',GOPROXY='off',GOTOOLCHAIN='local',GOMAXPROCS=G,ZZVERIF_LIMIT=LIM)
def spaces(c): return re.findall(r'\{Name: "([^"]+)", Doc: "[^"]+",(?!.*Thorough: true)',open(f'/tmp/mt/h/checks/{c.lower()}.go').read())
SPACES={f'C{i:02}':spaces(f'C{i:02}') for i in range(1,23)}
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d['File'],d['Start'],d['End'],d['New']))
f=open(out,'a')
def one(m,checks):
    src=open(m['File'],'rb').read()
    new=src[:m['Start']]+m['New'].encode()+src[m['End']:]
    d=tempfile.mkdtemp(prefix='/tmp/mt/m.')
    try:
        open(d+'/f.go','wb').write(new)
        rep={m['File']:d+'/f.go'}
        frost='C16' in checks
        json.dump({"Replace":rep},open(d+'/o.json','w'))
        e=dict(env0)
        if frost:
            subprocess.run(['/tmp/mt/plain','overlay','/repo',d,'3'],env=dict(e,ZZVERIF_OVERLAY=d+'/o.json'),capture_output=True)
            r=json.load(open(d+'/overlay.json'))
            json.dump(r,open(d+'/o.json','w'))
            e['ZZVERIF_FROST']='3'
        b=subprocess.run(['go','build','-overlay',d+'/o.json','-o',d+'/zz','.'],cwd='/tmp/mt/h',env=dict(e,GOMAXPROCS='2'),capture_output=True,text=True)
        if b.returncode: return 'nobuild'
        os.makedirs(d+'/evidence'); shutil.copy('/verif/known-findings.json',d)
        e['VERIF_DIR']=d
        for c in checks: # a short look at every space first
            for sp in SPACES[c]:
                try: r=subprocess.run([d+'/zz','check',c],env=dict(e,ZZVERIF_SPACE=sp,ZZVERIF_LIMIT=os.environ.get('FIRST','6s')),capture_output=True,text=True,timeout=400)
                except subprocess.TimeoutExpired: return 'timeout '+c
                if r.returncode==1: return 'killed %s %s'%(c,sp)
        for c in checks if LIM!='0' else []:
            try: r=subprocess.run([d+'/zz','check',c],env=e,capture_output=True,text=True,timeout=400)
            except subprocess.TimeoutExpired: return 'timeout '+c
            if r.returncode==1: return 'killed '+c
            if r.returncode!=0: return 'rc%d %s %s'%(r.returncode,c,r.stderr[-200:])
        return 'SURVIVED'
    finally: shutil.rmtree(d,ignore_errors=True)
jobs=[]
for a in sys.argv[2:]:
    file,checks=a.split(':'); checks=checks.split(',')
    SRC=open('/repo/'+file).read().split('\n')
    for l in subprocess.check_output(['/tmp/mt/mt','/repo/'+file],text=True).splitlines():
        m=json.loads(l)
        if m['Kind'] in SKIP: continue
        if m['Kind']=='int' and m['New'].endswith('-1)'): continue
        line=SRC[m['Line']-1]
        if 'err != nil' in line and m['Kind'] in ('op',): continue
        if m['Kind']=='del' and re.search('addError|addWarning|Count\\+\\+|Warnings',m['Old']): continue
        if ONLY and not re.search(ONLY,m['Func']): continue
        if (m['File'],m['Start'],m['End'],m['New']) in done: continue
        jobs.append((m,checks))
print(len(jobs),'jobs',flush=True)
t0=time.time()
def go(j):
    m,checks=j
    r=one(m,checks); m['Res']=r
    f.write(json.dumps(m)+'\n'); f.flush()
    return r
n=0
with ThreadPoolExecutor(W) as ex:
    for r in ex.map(go,jobs):
        n+=1
        if n%50==0: print(n,int(time.time()-t0),flush=True)
