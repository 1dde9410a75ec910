"""mut.py FILE.json-like list: python file with MUTS=[(name, prop, file, old, new)...] ; run the check on each"""
import sys,os,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
ns={}; exec(open(sys.argv[1]).read(),ns)
sel=sys.argv[2:]
def one(mt):
    name,prop,file,old,new=mt[:5]
    n=mt[5] if len(mt)>5 else None
    t="/tmp/mutw/"+name
    shutil.rmtree(t,ignore_errors=True); os.makedirs(t)
    subprocess.run("cp -a {0}/source {0}/tests {1}/".format(os.environ.get("EL_BASE","/repo"),t),shell=True)
    edits=[(file,old,new)] if isinstance(file,str) else file
    for fl,o,nw in edits:
        p=t+"/"+fl; s=open(p).read()
        if s.count(o)<1: return name+" PATTERN NOT FOUND %s"%o
        if s.count(o)>1 and n is None: return name+" AMBIGUOUS %d"%s.count(o)
        if n is None or s.count(o)==1: s=s.replace(o,nw)
        else:
            parts=s.split(o); s=o.join(parts[:n+1])+nw+o.join(parts[n+1:])
        open(p,"w").write(s)
    r=subprocess.run("cd /verif && EL_EVID=/tmp/mutw/ev timeout 900 python3 -m elcheck %s"%prop,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,EL_REPO=t))
    shutil.rmtree(t)
    o=[l for l in r.stdout.splitlines() if l.strip() and "VIOLATION" not in l]
    exp="QUIET" if name.startswith("ok_") else "CAUGHT"
    good=(r.returncode==0) if exp=="QUIET" else r.returncode==1
    return "%s %-30s rc=%d %s"%("  ok" if good else "!!!!",name,r.returncode," // ".join(x[:170] for x in o[:3]))
ms=[m for m in ns["MUTS"] if not sel or any(s in m[0] for s in sel)]
with ThreadPoolExecutor(6) as ex:
    for l in ex.map(one,ms): print(l,flush=True)
