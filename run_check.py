#!/usr/bin/env python3
"""Driver: builds the monitored executables of one property from /repo's working tree, runs the workloads under watchdogs,
collects what the monitors observed, matches known findings, writes the evidence file, prints VIOLATION / KNOWN-FINDING lines."""
import sys,os,json,subprocess,hashlib,time,shutil,tempfile,signal,threading,re
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("VERIF_REPO","/repo")
sys.path.insert(0,HERE)
import checks
NCPU=os.cpu_count() or 8
BASE_INC=["-I"+os.path.join(HERE,"harness"),"-I"+os.path.join(HERE,"harness/inc"),"-I"+REPO]
LIBS=["-lopenblas","-lgivaro","-lgmpxx","-lgmp"]
def log(*a): print(*a,flush=True)

def tree_hash():
    h=hashlib.sha256()
    for root in (REPO+"/fflas-ffpack",HERE+"/harness"):
        for d,ds,fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".o",".lo",".la",".so")): continue
                p=os.path.join(d,f)
                try: h.update(p.encode()+b"\0"+open(p,"rb").read())
                except OSError: pass
    return h.hexdigest()

class Build:
    """name, src (in harness/ or absolute), defs, cflags, libs, extra sources"""
    def __init__(s,name,src,defs=(),cflags=("-O2","-march=haswell"),libs=None,extra=(),cxx="g++",openmp=True,ldflags=(),optional=False,shim=False):
        s.shim=shim
        s.name=name;s.src=src;s.defs=list(defs);s.cflags=list(cflags);s.libs=libs;s.extra=list(extra);s.cxx=cxx;s.openmp=openmp;s.ldflags=list(ldflags);s.optional=optional
checks.Build=Build
class Run:
    """one workload execution: build name, case scale etc."""
    def __init__(s,build,shards=1,scale=100,env=None,timeout=None,args=(),harness=None,tag=""):
        s.build=build;s.shards=shards;s.scale=scale;s.env=env or {};s.timeout=timeout;s.args=list(args);s.tag=tag
checks.Run=Run
checks.REPO=REPO; checks.HERE=HERE

def compile_one(b,outdir,th,cache):
    exe=os.path.join(outdir,b.name)
    srcs=[b.src]+b.extra
    srcs=[x if os.path.isabs(x) else os.path.join(HERE,"harness",x) for x in srcs]
    cmd=[b.cxx,"-std=gnu++11" if False else "-std=gnu++17","-w","-g1","-DNDEBUG","-UDEBUG"]+b.cflags+(["-fopenmp"] if b.openmp else [])+b.defs+BASE_INC+srcs+["-o",exe]+b.ldflags+(LIBS if b.libs is None else b.libs)
    key=hashlib.sha256((th+"\0".join(cmd[:-0 or None]).replace(exe,"EXE")).encode()).hexdigest()
    cexe=os.path.join(cache,key) if cache else None
    if cexe and os.path.exists(cexe):
        shutil.copy(cexe,exe); os.chmod(exe,0o755); return b,0,"",0.0
    t=time.time()
    if b.shim: return compile_shim(b,exe,srcs,cexe,t)
    try:
        if len(srcs)>2: # several library files: compile them side by side, then link
            pre=cmd[:cmd.index(srcs[0])]; objs=["%s.%d.o"%(exe,i) for i in range(len(srcs))]
            def one(i): return subprocess.run([x for x in pre if i==0 or x not in b.defs]+["-c",srcs[i],"-o",objs[i]],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=700)
            with ThreadPoolExecutor(len(srcs)) as ex: rs=list(ex.map(one,range(len(srcs))))
            rc=max(abs(x.returncode) for x in rs); out="".join(x.stdout.decode(errors="replace") for x in rs)
            if rc==0:
                r=subprocess.run(pre+objs+cmd[cmd.index("-o"):],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=700); rc,out=r.returncode,r.stdout.decode(errors="replace")
            for o in objs:
                if os.path.exists(o): os.unlink(o)
        else:
            r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=700)
            rc,out=r.returncode,r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: rc,out=-99,"compile timeout"
    if rc==0 and cexe:
        try:
            tmp=cexe+".%d"%os.getpid(); shutil.copy(exe,tmp); os.replace(tmp,cexe)
        except OSError: pass
    return b,rc,out,time.time()-t

WRAPS=["malloc","calloc","realloc","aligned_alloc","posix_memalign","free","memcpy","memmove","memset"]
def compile_shim(b,exe,srcs,cexe,t):
    """harness instrumented for memory accesses, linked with the project's own OpenMP scheduler / race monitor instead of libgomp and libtsan"""
    base=[b.cxx,"-std=gnu++17","-w","-g1","-DNDEBUG","-UDEBUG","-fno-pie"]; out=""; objs=[]; rc=0
    try:
        for i,x in enumerate(srcs+[os.path.join(HERE,"harness","gompshim.C")]):
            o="%s.%d.o"%(exe,i); objs.append(o); own=x.endswith("gompshim.C")
            fl=["-O2"] if own else b.cflags+["-fopenmp","-fsanitize=thread","-fno-builtin"]+b.defs
            r=subprocess.run(base+fl+BASE_INC+["-c",x,"-o",o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=700); out+=r.stdout.decode(errors="replace"); rc=rc or r.returncode
            if rc: return b,rc,out,time.time()-t
        r=subprocess.run([b.cxx,"-no-pie"]+objs+["-o",exe]+["-Wl,--wrap="+w for w in WRAPS]+b.ldflags+b.libs,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=700); out+=r.stdout.decode(errors="replace"); rc=r.returncode
    except subprocess.TimeoutExpired: rc,out=-99,"compile timeout"
    for o in objs:
        if os.path.exists(o): os.unlink(o)
    if rc==0 and cexe:
        try:
            tmp=cexe+".%d"%os.getpid(); shutil.copy(exe,tmp); os.replace(tmp,cexe)
        except OSError: pass
    return b,rc,out,time.time()-t

def read_progress(p):
    try:
        l=open(p,errors="replace").read().split("\n")[0].split("\t")
        return dict(case=int(l[0]),routine=l[1].strip(),field=l[2].strip(),desc=l[3].strip())
    except Exception: return None

SAN=re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|ERROR: LeakSanitizer[^\n]*|RACE [^\n]*)")
def san_sig(err):
    """kind and first frame inside /repo of a sanitizer report"""
    m=SAN.search(err)
    if not m: return None
    txt=err[max(0,m.start()-400):m.start()+6000]
    kind=m.group(1)
    kind=re.sub(r"0x[0-9a-f]+","X",kind); kind=re.sub(r" on (unknown )?address.*","",kind); kind=re.sub(r"pid=\d+","",kind)
    kind=re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?","N",kind)
    loc="?"
    for f in re.finditer(r"(/\S*?fflas-ffpack/[\w./-]+\.(?:h|inl|C)):(\d+)",txt):
        loc=f.group(1).split("fflas-ffpack/",1)[1]; break
    return kind.strip()+" @ "+loc

class Result:
    def __init__(s): s.viol=[];s.evals=0;s.cov={};s.mon={};s.samples=[];s.sigs=set();s.incon=[];s.errors=[]
    def merge(s,o):
        s.viol+=o.viol;s.evals+=o.evals;s.sigs|=o.sigs;s.incon+=o.incon;s.errors+=o.errors
        for k,v in o.cov.items(): s.cov[k]=s.cov.get(k,0)+v
        for k,v in o.mon.items(): s.mon[k]=s.mon.get(k,0)+v
        s.samples+=o.samples

def run_shard(run,exe,tmp,idx,shard,seed,tier,default_timeout,deadline):
    res=Result(); pre=os.path.join(tmp,"r%d_%d"%(idx,shard)); out=pre+".out"; prog=pre+".prog"
    env=dict(os.environ); env.update({"OMP_NUM_THREADS":"2","OMP_WAIT_POLICY":"passive","OPENBLAS_NUM_THREADS":"1","MALLOC_PERTURB_":"165","OMP_STACKSIZE":"64M","TMPDIR":tmp}); env.update(run.env)
    start=0; restarts=0; tmo=run.timeout or default_timeout; tstop=time.time()+tmo
    baseargs=["--seed",str(seed),"--shard","%d/%d"%(shard,run.shards),"--tier",tier,"--scale",str(run.scale)]+run.args
    def launch(args,limit,stall=None,progf=None):
        with open(pre+".err","wb") as ef:
            p=subprocess.Popen([exe]+args,stdout=ef,stderr=ef,stdin=subprocess.DEVNULL,env=env,cwd=tmp,start_new_session=True)
            t1=time.time(); last=None; tl=t1; rc=None; nap=0.05
            while rc is None:
                try: rc=p.wait(timeout=nap); break
                except subprocess.TimeoutExpired: pass
                nap=min(1.0,nap*1.5); now=time.time()
                if stall:
                    try: cur=open(progf,"rb").read(600)
                    except OSError: cur=None
                    if cur!=last: last=cur; tl=now
                if now-t1>limit or (stall and now-tl>stall):
                    rc="timeout" if now-t1>limit else "stall"
                    try: os.killpg(p.pid,signal.SIGKILL)
                    except OSError: pass
                    p.wait()
        e=open(pre+".err","rb").read()
        return rc,(e[:200000]+e[-50000:] if len(e)>250000 else e).decode(errors="replace")
    def slurp(f):
        done=False
        try: lines=open(f,errors="replace").read().split("\n")
        except OSError: return False
        for l in lines:
            if not l: continue
            try: d=json.loads(l)
            except Exception: continue
            if d["t"]=="viol":
                d["build"]=run.build; d["args"]=run.args; d["env"]=run.env; d["tier"]=tier; d["seed"]=seed; res.viol.append(d)
            elif d["t"]=="done":
                done=True; res.evals+=d["evals"]
                for k,v in d["cov"].items(): res.cov[k]=res.cov.get(k,0)+v
                for k,v in d["mon"].items(): res.mon[k]=res.mon.get(k,0)+v
                res.samples+=d["samples"]; res.sigs|=set(d["sigs"])
        return done
    while True:
        for f in (out,prog):
            if os.path.exists(f): os.unlink(f)
        left=min(tstop,deadline)-time.time()
        if left<5: res.incon.append("%s shard %d: time budget exhausted before case %d"%(run.build,shard,start)); return res
        rc,err=launch(baseargs+["--start",str(start),"--out",out,"--progress",prog],left,checks.STALL_LIMIT,prog)
        done=slurp(out)
        pr=read_progress(prog)
        if rc==0 and done:
            sg=san_sig(err)
            if sg: res.viol.append(dict(kind="sanitizer: "+sg,routine=(pr or {}).get("routine","?"),field=(pr or {}).get("field","?"),case=-1,desc="",msg=err[-3000:],build=run.build,args=run.args,env=run.env,tier=tier,seed=seed))
            return res
        if pr is None:
            res.errors.append("%s shard %d: rc=%s no progress: %s"%(run.build,shard,rc,err[-800:])); return res
        case=pr["case"]; 
        if rc=="stall" or rc=="timeout":
            # three-valued verdict: a case that does not progress is run again alone, with a generous limit
            if rc=="stall":
                rc2,err2=launch(baseargs+["--only",str(case),"--out",out+".h","--progress",prog+".h"],checks.HANG_LIMIT)
                if rc2=="timeout":
                    res.viol.append(dict(kind="hang",msg="no return within %ds when run alone"%checks.HANG_LIMIT,build=run.build,args=run.args,env=run.env,tier=tier,seed=seed,**pr)); res.evals+=max(0,(case-start)//max(1,run.shards)); return res
            res.incon.append("%s shard %d stopped by the watchdog (%s) at case %d (machine load); remaining cases not run"%(run.build,shard,rc,case))
            res.evals+=max(0,(case-start)//max(1,run.shards)); return res
        else:
            sg=san_sig(err)
            kind=("sanitizer: "+sg) if sg else "crash: "+(signal.Signals(-rc).name if isinstance(rc,int) and rc<0 else "exit %s"%rc)
            # confirm by running the case alone (state carried from earlier cases must not be needed); keep either way
            res.viol.append(dict(kind=kind,msg=err[-6000:] if not sg else err[max(0,SAN.search(err).start()-300):][:6000],build=run.build,args=run.args,env=run.env,tier=tier,seed=seed,**pr))
        res.evals+=max(0,(case-start)//max(1,run.shards))
        start=case+1; restarts+=1
        if restarts>15: return res

def load_known(pid):
    kn=[];p=os.path.join(HERE,"known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e.get("status","open")=="open" and e["property"]==pid: kn.append(e)
    return kn
def matches(e,v):
    for k in ("kind","routine","field","desc","build"):
        if k in e["match"] and not re.search(e["match"][k],str(v.get(k,""))): return False
    return True

def main():
    pid=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick")
    if len(sys.argv)>2: tier=sys.argv[2]
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    t0=time.time()
    spec=checks.SPECS[pid](tier)
    tmp=tempfile.mkdtemp(prefix="vh_%s_"%pid)
    cache=os.environ.get("VERIF_CACHE")  # development aid only; unset in registered commands
    if cache: os.makedirs(cache,exist_ok=True)
    rc=2
    try: rc=execute(pid,tier,seed,spec,tmp,cache,t0)
    finally: shutil.rmtree(tmp,ignore_errors=True)
    sys.exit(rc)

def execute(pid,tier,seed,spec,tmp,cache,t0):
    builds=spec["builds"]; runs=spec["runs"]
    only=os.environ.get("VERIF_ONLY")
    if only:
        builds=[b for b in builds if re.search(only,b.name)]; runs=[r for r in runs if re.search(only,r.build)]
    th=tree_hash()
    nbf=[0]; res=Result(); ok={}; done_ev={b.name:threading.Event() for b in builds}
    shards_total=0
    deadline=t0+(spec.get("budget",600) if tier=="quick" else 24*3600)
    default_timeout=spec.get("timeout",300 if tier=="quick" else 6000)
    pool=ThreadPoolExecutor(NCPU); comp=[]; per={}; tlast=[t0]
    byb={}
    for i,r in enumerate(runs):
        for k in range(r.shards): byb.setdefault(r.build,[]).append((i,r,k))
    # compilations first, in order; the workloads of a build are queued as soon as it is ready and overlap the remaining compilations
    cv=threading.Condition(); ready=[]; pend=[b for b in sorted(builds,key=lambda b:-getattr(b,"weight",1))]; running=[0]; outs=[]
    def worker():
        while True:
            with cv:
                while True:
                    if pend: job=("c",pend.pop(0)); running[0]+=1; break
                    if ready: job=("r",ready.pop(0)); break
                    if not running[0]: return
                    cv.wait()
            if job[0]=="c":
                try: o=compile_one(job[1],tmp,th,cache)
                except Exception as x: o=(job[1],-98,repr(x),0.0)
                b,rc,out,dt=o
                with cv:
                    running[0]-=1; comp.append((b.name,round(dt,1))); ok[b.name]=(rc==0); tlast[0]=time.time()
                    if rc!=0:
                        if not b.optional: log("BUILD-FAILED",b.name,out[-3000:]); res.incon.append("build failed: "+b.name); nbf[0]+=1
                    else: ready.extend(byb.get(b.name,[]))
                    cv.notify_all()
            else:
                i,r,k=job[1]; t1=time.time()
                if time.time()>deadline-10:
                    with cv: res.incon.append("%s shard %d: not started, time budget exhausted"%(r.build,k))
                    continue
                try: o=run_shard(r,os.path.join(tmp,r.build),tmp,i,k,seed,tier,default_timeout,deadline)
                except Exception as x: o=Result(); o.errors.append("%s shard %d: %r"%(r.build,k,x))
                with cv: outs.append((i,k,r,o,time.time()-t1))
    ths=[pool.submit(worker) for _ in range(NCPU)]
    for f in ths: f.result()
    if nbf[0]*4>len(builds): res.errors.append("%d of %d builds failed"%(nbf[0],len(builds)))
    tb=tlast[0]-t0
    for i,k,r,o,dt in sorted(outs,key=lambda x:(x[0],x[1])):
        res.merge(o); d=per.setdefault(r.build+(":"+r.tag if r.tag else ""),[0,0,0.0]); d[0]+=o.evals; d[1]+=len(o.viol); d[2]+=dt
    if os.environ.get("VERIF_TIMES"):
        for k,d in sorted(per.items(),key=lambda x:-x[1][2])[:15]: log("  time %-40s %.1f s %d cases"%(k,d[2],d[0]))
        for k,dt in sorted(comp,key=lambda x:-x[1])[:6]: log("  compile %-40s %.1f s"%(k,dt))
    flt=spec.get("filter")
    ignored=0
    if flt:
        kept=[v for v in res.viol if flt(v)]; ignored=len(res.viol)-len(kept); res.viol=kept
    post=spec.get("post")
    if post: post(res,dict(tmp=tmp,seed=seed,tier=tier,pid=pid))
    known=load_known(pid); newv=[]; hit={}
    for v in res.viol:
        for e in known:
            if matches(e,v): hit.setdefault(e["id"],[e,0]); hit[e["id"]][1]+=1; break
        else: newv.append(v)
    for e,c in hit.values(): log("KNOWN-FINDING: property=%s %s"%(pid,e["what"]))
    # replay files
    rep=None; seen=set()
    rdir=os.path.join(HERE,"evidence","replay"); os.makedirs(rdir,exist_ok=True)
    bm={b.name:b for b in builds}
    for v in newv:
        sig=(v["kind"],v["routine"],v["field"])
        if sig in seen: continue
        seen.add(sig)
        if len(seen)>10: break
        path=os.path.join(rdir,"%s-%s.json"%(pid,hashlib.sha256(repr(sig).encode()).hexdigest()[:10]))
        b=bm.get(v["build"])
        json.dump(dict(property=pid,violation=v,seed=seed,tier=tier,replay="VERIF_SEED=%s python3 run_check.py --replay %s"%(seed,path)),open(path,"w"),indent=1)
        log("VIOLATION property=%s replay=%s"%(pid,path))
        log("   kind=%s routine=%s field=%s case=%s build=%s"%(v["kind"],v["routine"],v["field"],v["case"],v["build"]))
        log("   desc=%s"%v["desc"]); log("   msg=%s"%v["msg"][:1500])
    minev=spec.get("min_evals",1)
    cov=dict(evaluations=res.evals,distinct_nontrivial=len(res.sigs),rule=spec["rule"],samples=res.samples[:12] or ["none"],
        monitors=res.mon,per_routine_and_field={k:v for k,v in sorted(res.cov.items())},per_build={k:dict(evaluations=a,violations=b,seconds=round(c,1)) for k,(a,b,c) in per.items()},
        inconclusive=res.incon,build_seconds=round(tb,1),compile_times=comp,known_findings_hit={k:c for k,(e,c) in hit.items()},reports_of_other_properties_ignored=ignored)
    ev=dict(property=pid,tier=tier,seed=seed,level="exploration",coverage=cov,assumptions=spec.get("assumptions",[]),wall_s=round(time.time()-t0,1),violations=len(newv))
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(HERE,"evidence",pid+".json"),"w"),indent=1)
    log("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %d violations (%d known), build %.0fs, total %.0fs"%(pid,tier,seed,res.evals,len(res.sigs),len(newv),len(res.viol)-len(newv),tb,time.time()-t0))
    for x in res.incon[:5]: log("INCONCLUSIVE:",x)
    if newv: return 1
    if res.errors:
        for e in res.errors: log("ERROR:",e)
        return 2
    if res.evals<minev: log("ERROR: monitors observed too little (%d < %d)"%(res.evals,minev)); return 2
    return 0

def replay(path):
    d=json.load(open(path)); v=d["violation"]; pid=d["property"]; spec=checks.SPECS[pid](d["tier"])
    b=[x for x in spec["builds"] if x.name==v["build"]][0]
    tmp=tempfile.mkdtemp(prefix="vh_replay_")
    try:
        b,rc,out,dt=compile_one(b,tmp,tree_hash(),None)
        if rc: print(out); return 2
        env=dict(os.environ); env.update({"OMP_NUM_THREADS":"2","OMP_WAIT_POLICY":"passive","OPENBLAS_NUM_THREADS":"1","MALLOC_PERTURB_":"165"}); env.update(v.get("env") or {})
        r=subprocess.run([os.path.join(tmp,b.name),"--seed",str(v["seed"]),"--tier",v["tier"],"--only",str(v["case"]),"-v"]+v.get("args",[]),env=env)
        return r.returncode
    finally: shutil.rmtree(tmp,ignore_errors=True)
if __name__=="__main__":
    if sys.argv[1]=="--replay": sys.exit(replay(sys.argv[2]))
    main()
