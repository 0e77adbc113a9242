import os,json,subprocess,sys,shutil
w="/tmp/mw0"
for s in sorted(os.listdir("/verif/seeded")):
    if len(sys.argv)>1 and sys.argv[1] not in s: continue
    shutil.rmtree(w+"/repo",ignore_errors=True); shutil.copytree("/repo",w+"/repo",ignore=shutil.ignore_patterns("target"))
    r=subprocess.run(["git","-C",w+"/repo","apply","/verif/seeded/%s/patch.diff"%s]); 
    p=json.load(open("/verif/seeded/%s/meta.json"%s))["property"]
    env=dict(os.environ,COERCE_REPO=w+"/repo",COERCE_BUILD=w+"/build",VERIF_EVID=w+"/ev")
    x=subprocess.run(["python3","/verif/check.py",p],env=env,stdout=subprocess.PIPE,text=True)
    print(s,p,r.returncode,x.returncode,[l[:120] for l in x.stdout.splitlines() if "violated" in l][:1],flush=True)
