import sys,os,subprocess,json,shutil; sys.path.insert(0,'/verif/dev')
import allprops as A
S='/verif/seeded'; W='/tmp/seedmut'
ids=sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W); subprocess.run("cp -r /repo/code %s/"%W,shell=True)
    r=subprocess.run(["patch","-p1","-s","-d",W,"-i","%s/%s/patch.diff"%(S,i)],capture_output=True,text=True)
    if r.returncode: print(i,"PATCH",r.stdout); continue
    p=json.load(open("%s/%s/meta.json"%(S,i)))["property"]
    # removed lines must be original
    bad=[]
    f=None
    for l in open("%s/%s/patch.diff"%(S,i)):
        if l.startswith('--- '): f=l.split()[1][2:]; src=open('/tmp/base/'+f).read().split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') not in src and l.strip()!='-': bad.append(l.strip())
    res,t,_=A.evaluate(W)
    c=sorted(q for q in res if any(x[0]=="CONFIRMED" for x in res[q])); u=sorted(q for q in res if q not in c)
    print("%-40s %s %-7s confirmed %s unconfirmed %s %.0f s %s"%(i,p,"CAUGHT" if p in c else "weak" if p in u else "MISSED",",".join(c),",".join(u),t,"NOTORIG %s"%bad if bad else ""),flush=True)
