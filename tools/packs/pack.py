import sys,os,subprocess,shutil,concurrent.futures as cf,json
# usage: pack.py spec.py [filter] [props...]: spec has PK=[dict(name,e=[(file,old,new)...])]; runs every property on each pack
ns={};exec(open(sys.argv[1]).read(),ns)
flt=sys.argv[2] if len(sys.argv)>2 else ""
ids=sys.argv[3:] or [json.loads(l)["id"] for l in open("/verif/properties.jsonl") if json.loads(l)["id"][0]!="X"]
w="/tmp/mp"
os.makedirs(w,exist_ok=True)
if not os.path.exists(w+"/build"): subprocess.run(["cp","-a","/verif/.build",w+"/build"],check=True)
for pk in ns["PK"]:
    if flt not in pk["name"]: continue
    shutil.rmtree(w+"/repo",ignore_errors=True); shutil.copytree("/repo",w+"/repo",ignore=shutil.ignore_patterns("target"))
    bad=False
    for f,o,n in pk["e"]:
        p=w+"/repo/"+f; s=open(p).read()
        if s.count(o)<1: print("NOAPPLY",pk["name"],f,o[:60]); bad=True; continue
        open(p,"w").write(s.replace(o,n,1))
    if bad: continue
    env=dict(os.environ,COERCE_REPO=w+"/repo",COERCE_BUILD=w+"/build",VERIF_EVID=w+"/ev")
    def one(i):
        r=subprocess.run(["python3","/verif/check.py",i],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return i,r.returncode,r.stdout
    i,rc,out=one(ids[0])
    if rc==2: print(pk["name"],"ERR",out[-3000:]); continue
    res=[(i,rc,out)]
    with cf.ThreadPoolExecutor(6) as ex: res+=list(ex.map(one,ids[1:]))
    print("==",pk["name"],"quiet" if all(r[1]==0 for r in res) else "ALARM")
    for i,rc,out in res:
        if "not decided" in out or "truncated" in out: print(i,"UNDECIDED",[l[:300] for l in out.splitlines() if "not decided" in l or "truncated" in l])
        if rc: print(i,rc,"\n   ".join([l.strip()[:260] for l in out.splitlines() if "violated:" in l][:4]) or out[-500:])
