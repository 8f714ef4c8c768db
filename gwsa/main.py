import sys, time
from .model import Repo
from .spec import load_specs, check_spec, Vocabulary
def dev(root="/repo", props=None, only=""):
    repo=Repo(root)
    specs=load_specs(repo)
    vocab=Vocabulary()
    n={}
    for s in specs:
        if only and only not in s.target: continue
        t=time.time()
        outs,_=check_spec(repo,s,props or s.all_props(),vocab)
        dt=time.time()-t
        if dt>3: print(f"slow {s.target} {dt:.1f}s")
        for o in outs:
            n[o.status]=n.get(o.status,0)+1
            if o.status!="holds": print(o.status,s.target,o.obs,o.where,o.detail)
    print(n)
if __name__=="__main__":
    dev(*( [sys.argv[1]] if len(sys.argv)>1 else []), only=sys.argv[2] if len(sys.argv)>2 else "")
