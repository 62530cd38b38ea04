#!/usr/bin/env python3
"""Random or exhaustive single-line mutations of /repo's sources, each run against the checks anchored at its file.
usage: campaign.py WORKERS FRACTION SEED [path fragments]; worker k needs a copy of /verif in $ROOT/v<k>."""
import json,os,random,re,shutil,subprocess,sys,threading,time
W=int(sys.argv[1]); PER=float(sys.argv[2]); SEED=int(sys.argv[3]); ONLY=sys.argv[4:] 
random.seed(SEED)
ROOT=os.environ.get('CAMP_ROOT','/tmp/camp')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={}
for p in props:
    for f in p['anchors']['files']:
        m.setdefault(f,[]).append(p['id'])
extra={}
BASE='/repo/src/lib/sup/oac-tree'
files=[]
for d,_,fs in os.walk(BASE):
    for f in fs:
        if f.endswith(('.cpp','.h')): files.append(os.path.relpath(os.path.join(d,f),'/repo'))
files.append('src/app/oac-tree-cli/cl_interface.cpp')
files.sort()
DEF={'runner':['J03','J02','J05','I01','B04'],'instructions':['T05','T06','V02','U02','T11'],'parser':['P01','T11'],'procedure':['V05','V01','V03','P01'],'variables':['V01','V05'],'attributes':['A01'],'base':['U01','U02','V01','J06']}
def checks(f):
    c=list(m.get(f,[]))
    if not c:
        stem=os.path.basename(f).rsplit('.',1)[0]
        for g,v in m.items():
            if os.path.basename(g).rsplit('.',1)[0]==stem: c+=[x for x in v if x not in c]
    if not c:
        for k,v in DEF.items():
            if '/'+k+'/' in f: c=v
    return c or ['V05','P01','T05','J03']
def muts(line):
    out=[]
    s=line.strip()
    if not s or s.startswith(('//','*','/*','#','using','namespace','@','class','struct','friend','}','{')): return out
    code=line.split('//')[0]
    def sub(pat,rep):
        for x in re.finditer(pat,code):
            out.append(code[:x.start()]+x.expand(rep)+code[x.end():].rstrip('\n')+'\n')
    sub(r'==','!='); sub(r'!=','==')
    sub(r' < ',' <= '); sub(r' > ',' >= '); sub(r' <= ',' < '); sub(r' >= ',' > ')
    sub(r' < ',' > ') 
    sub(r'&&','||'); sub(r'\|\|','&&')
    sub(r'\btrue\b','false'); sub(r'\bfalse\b','true')
    sub(r'\(!',r'('); sub(r'if \((?!!)',r'if (!')  if re.search(r'if \([a-zA-Z_]+(\(|\.|\))',code) else None
    sub(r'ExecutionStatus::SUCCESS','ExecutionStatus::FAILURE'); sub(r'ExecutionStatus::FAILURE','ExecutionStatus::SUCCESS')
    sub(r'ExecutionStatus::RUNNING','ExecutionStatus::NOT_FINISHED'); sub(r'ExecutionStatus::NOT_FINISHED','ExecutionStatus::RUNNING')
    sub(r'\b0\b','1'); sub(r'\b1\b','2'); sub(r'\+ 1\b','+ 0'); sub(r'\+\+','--') if 'operator' not in code else None
    sub(r'\bbegin\(\)','end()') if False else None
    sub(r'notify_one','notify_all') if False else None
    if re.match(r'^\s+[A-Za-z_][\w\.\->:\[\]\(\)\*]*\(.*\);\s*$',code) and not s.startswith(('return','throw','static','virtual','explicit')) : out.append('  (void)0;\n')
    if re.match(r'^\s+(std::lock_guard|std::unique_lock<std::mutex> lk|std::lock_guard<).*;\s*$',code): out.append('\n')
    if re.match(r'^\s+(m_)?[\w\.\[\]]+ = .*;\s*$',code): out.append('  (void)0;\n')
    if re.match(r'^\s+(break|continue);',code): out.append('  ;\n')
    if re.match(r'^\s+return;',code): out.append('  ;\n')
    return [o for o in out if o and o!=line]
jobs=[]
for f in files:
    if ONLY and not any(o in f for o in ONLY): continue
    L=open('/repo/'+f).read().split('\n')
    c=[]
    incomment=False
    for i,l in enumerate(L):
        if '/*' in l: incomment=True
        if not incomment and (f.endswith('.cpp') or re.match(r'^    ',l)):
            for x in muts(l+'\n'): c.append((f,i,l,x))
        if '*/' in l: incomment=False
    n=max(1,int(len(c)*PER)) if c else 0
    n=min(n,len(c))
    jobs+=random.sample(c,n)
random.shuffle(jobs)
done=set()
R=ROOT+'/results.jsonl'
if os.path.exists(R):
    for l in open(R):
        d=json.loads(l); done.add((d['file'],d['line'],d['new']))
print(len(jobs),'mutants'); sys.stdout.flush()
if os.environ.get('DRY'): sys.exit()
lock=threading.Lock()
def worker(k):
    V='%s/v%d'%(ROOT,k); P='%s/r%d'%(ROOT,k)
    while True:
        with lock:
            if not jobs or os.path.exists(ROOT+'/stop'): return
            f,i,l,x=jobs.pop()
        if (f,i+1,x) in done: continue
        shutil.rmtree(P,ignore_errors=True)
        shutil.copytree('/repo/src',P+'/src',symlinks=True)
        L=open(P+'/'+f).read().split('\n'); L[i]=x.rstrip('\n'); open(P+'/'+f,'w').write('\n'.join(L))
        res='MISSED'; by=''; t=time.time(); det=''
        tried=[]
        for c in checks(f):
            r=subprocess.run(['timeout','400','python3',V+'/tools/check.py',c],env=dict(os.environ,OAC_REPO=P),capture_output=True,text=True)
            if 'BUILD ERROR' in r.stdout+r.stderr: res='BUILD'; break
            tried.append(c)
            if r.returncode==1: res='CAUGHT'; by=c; det=r.stdout[:300]; break
            if r.returncode!=0: res='ODD%d'%r.returncode; by=c; det=(r.stdout+r.stderr)[-500:]; break
        with lock:
            open(R,'a').write(json.dumps(dict(file=f,line=i+1,old=l.strip(),new=x,res=res,by=by,tried=tried,det=det,t=round(time.time()-t)))+'\n')
ts=[threading.Thread(target=worker,args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
