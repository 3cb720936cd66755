#!/usr/bin/env python3-vt
"""Development aid: runs the check of each planted bug's property against it (the way vcheck does) and prints a table row.
usage: seedtable.py [ids...]"""
import sys,os,subprocess,json,shutil,re
S='/verif/seeded'; W='/tmp/seedtab-%d'%os.getpid()
for i in sys.argv[1:] or sorted(os.listdir(S)):
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W); shutil.copytree('/repo/code',W+'/code')
    r=subprocess.run(["patch","-p1","-s","-d",W,"-i","%s/%s/patch.diff"%(S,i)],capture_output=True,text=True)
    if r.returncode: print(i,"PATCH",r.stdout); continue
    p=json.load(open("%s/%s/meta.json"%(S,i)))["property"]
    r=subprocess.run(["python3-vt","/verif/run.py",p,"quick","--repo",W],capture_output=True,text=True,env=dict(os.environ,XVC_EVIDENCE=W+"/ev"))
    cs=[]
    for l in r.stdout.split("\n"):
        m=re.match(r"failed: contract (\w+): (.*)",l)
        if m and m.group(1) not in [c for c,_ in cs]: cs.append((m.group(1),m.group(2)))
    v=[l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    res="missed" if r.returncode!=1 else "no input" if all(l.endswith("no-failing-input-found") for l in v) else "replayed"
    print("| %s | %s | %s | %s%s |"%(i,p,res,", ".join(c for c,_ in cs[:4])," …" if len(cs)>4 else ""),flush=True)
shutil.rmtree(W,ignore_errors=True)
