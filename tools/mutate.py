#!/usr/bin/env python3
"""mutate.py <seed> <n> <log> [files...] : a campaign of small changes(one token or statement) of a copy of /repo/lib.
Each one is judged by a sample of the programs of all properties(without the real-time ones), relevant ones first; the log gets a
JSON line [killed|SURVIVED, why, file, line, op, old, new, secs] for each.  Not a check: a means to find holes."""
import sys, os, re, random, json, subprocess, shutil, time
import atexit, tempfile
T=tempfile.mkdtemp(prefix="flmut.", dir="/tmp"); atexit.register(shutil.rmtree, T, True)
SRC=T+"/repo0"; R=T+"/repo"; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
shutil.copytree("/repo/lib",SRC+"/lib"); shutil.copytree("/repo",R,ignore=shutil.ignore_patterns(".git"))
os.environ["VERIF_REPO"]=R
sys.path.insert(0,V+"/lib"); sys.path.insert(0,V)
import fl, progs, check
seed=int(sys.argv[1]); N=int(sys.argv[2]); LOG=sys.argv[3]
FILES=sys.argv[4:] or "flcklistfilelock.cc flcklistlocker.cc flcklistncond.cc flcklistnmtx.cc flcklistofflock.cc flcklistwaiter.cc flckshm.cc flckshminit.cc flckthread.cc flckutil.cc rwlockrcsv.cc fullock.cc flcklistfilelock.h flcklistlocker.h flcklistncond.h flcklistnmtx.h flcklistofflock.h flcklistwaiter.h flckpidcache.h flckutil.h flckbaselist.tcc flckstructure.h".split()
rng=random.Random(seed)
SKIP=re.compile(r"_FLCKPRN|DMP|dump|cppcheck|assert")
def cands():
    out=[]
    for f in FILES:
        L=open(SRC+"/lib/"+f).read().split("\n")
        infn=False; com=False
        for i,l in enumerate(L):
            s=l.strip()
            if s.startswith("/*"): com=True
            if com:
                if "*/" in s: com=False
                continue
            if s.startswith("//") or s.startswith("#") or s.startswith("*") or not s or SKIP.search(s): continue
            code=l.split("//")[0]
            def add(new,op):
                if new!=code: out.append((f,i,op,new+l[len(code):]))
            if l.startswith("\t"):
                m=re.match(r"^(\t+)([A-Za-z_][\w\.\->:\(\)\*&\[\]]*\s*(=|\(|\+\+|--).*;)\s*$",code)
                if m and not re.match(r"^\t+(return|const|static|int|bool|size_t|off_t|string|struct|typedef|pid_t|tid_t|PFL\w+|Fl\w+\s+\w+|FLRwl|using|flckpid_t|time_t|long|char|flck_ino_t|flock_t)\b",code):
                    add(m.group(1)+";","del")
                m=re.match(r"^(\t+(?:\}else )?if\()(.*)(\)\{\s*)$",code)
                if m: add(m.group(1)+"!("+m.group(2)+")"+m.group(3),"neg")
                for a,b in (("&&","||"),("||","&&"),("==","!="),("!=","=="),(" < "," <= "),(" <= "," < "),(" > "," >= "),("true","false"),("false","true"),(" + "," - "),("++","--"),("break;",";"),("continue;",";"),("0 <","1 <"),("NULL","reinterpret_cast<void*>(8)")):
                    if b.startswith("rein"): continue
                    for m in re.finditer(re.escape(a),code):
                        add(code[:m.start()]+b+code[m.end():],a+">"+b)
                m=re.match(r"^(\t+return )(.+);\s*$",code)
                if m and m.group(2) in ("0","EBUSY","ETIMEDOUT","EPERM","EINVAL","ENOLCK"):
                    add(m.group(1)+("EINVAL" if m.group(2)=="0" else "0")+";","ret")
    return out
C=cands(); rng.shuffle(C)
print(len(C),"candidates",flush=True)
ALLP=[]
def evalm(tag):
    w=fl.Work(); t0=time.time()
    try:
        try: exe=fl.build(w)
        except SystemExit: return "nocompile",""
        r=random.Random(str(tag))
        if not ALLP:
            for pid in ["C%02d"%i for i in range(1,21)]:
                g=progs.Gen(1,"quick")
                for p in progs.ALL[pid](g):
                    if p.cfg.get("rt")!="1":
                        p.name=pid+p.name; ALLP.append(p)
        f0=tag[0]
        REL={"flckshminit.cc":["C14","C16","C17","C15"],"flckutil.cc":["C15","C17","C20","C08","C03","C14"],"rwlockrcsv.cc":["C18"],"flcklistncond":["C11","C12","C13","C09"],"flcklistwaiter":["C11","C12","C13"],"flcklistnmtx":["C01","C02","C03","C04","C12","C20"],
          "flcklistofflock":["C05","C06","C07","C08","C09","C10"],"flcklistfilelock":["C05","C06","C07","C08","C09","C10","C20"],"flcklistlocker":["C05","C06","C07","C08","C09"],"flckpidcache.h":["C03","C08","C13","C15"],"flckbaselist.tcc":["C09","C01","C05","C11"]}
        rl=REL.get(f0) or REL.get(f0.split(".")[0]) or (["C17","C16"] if f0=="flckshm.cc" and (tag[1]>1085 or tag[1]<560) else ["C01","C03","C05","C07","C08","C09","C10","C12","C13","C16"])
        X=[p for p in ALLP if p.name[:3] in rl]; r.shuffle(X)
        Y=[p for p in ALLP if p.name[:3] not in rl]; r.shuffle(Y)
        S=X[:450]+Y[:100]; n=len(S)
        rel=[]
        for ps in (S[:n//8],S[n//8:n]):
            o,s,e=fl.explore(exe,w,ps,100)
            if e:
                e2=fl.explore(exe,w,ps,100)[2]
                if e2: return "killed"," explorer "+e[0][:100]
            rej,_,_,u=fl.validate(w,[(p,x["ev"]) for p,x in o])
            c=check.Check("C09","quick",1)
            bad,kn=c.split_known(w,o,rej)
            for q in bad[:8]:
                p,x=o[q]
                o2,_,e2=fl.explore(exe,w,[p],120,strats={p.name:["X %s qmul=10"%re.sub(r" qmul=\d+","",x["x"])]})
                if not o2: return "killed",p.name+" noresult"
                r2=fl.validate(w,[(p,y["ev"]) for p,y in o2],chunk=1)[0]
                if r2: return "killed",p.name
        return "SURVIVED","%.0fs"%(time.time()-t0)
    except Exception as ex:
        return "killed?",repr(ex)[:200]
    finally: w.close()
n=0
for f,i,op,new in C:
    if n>=N: break
    shutil.copytree(SRC+"/lib",R+"/lib",dirs_exist_ok=True)
    L=open(SRC+"/lib/"+f).read().split("\n"); old=L[i]; L[i]=new
    open(R+"/lib/"+f,"w").write("\n".join(L))
    n+=1; t=time.time()
    res,why=evalm((f,i,op))
    open(LOG,"a").write(json.dumps([res,why,f,i+1,op,old.strip()[:140],new.strip()[:140],round(time.time()-t)])+"\n")
shutil.copytree(SRC+"/lib",R+"/lib",dirs_exist_ok=True)
