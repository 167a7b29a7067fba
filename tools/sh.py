import sys; sys.path.insert(0,'/verif')
from glasscheck.project import Project
from glasscheck.interp import *
from glasscheck.ir import *
def dump(root, maxn=400):
    seen={}
    order=[]
    def go(n):
        if n.id in seen: return
        seen[n.id]=1
        for a in n.args: go(a)
        if n.back is not None: go(n.back)
        order.append(n)
    go(root)
    for n in order[:maxn]:
        d=n.data
        print(f"%{n.id} = {n.op}{'' if d is None else repr(d)} "+" ".join(f"%{a.id}" if a.op not in('const','param') else show(a) for a in n.args)+(f" back=%{n.back.id}" if n.back is not None else ""))
if __name__=="__main__":
    p=Project()
    kw={}
    if len(sys.argv)>2: kw=eval(sys.argv[2])
    it=analyse(p,sys.argv[1],Config(**kw))
    dump(it.result)
    print("---events")
    for e in it.events: 
        if e.kind not in("nscall","ns_attr"): print(e.kind, show(e.node,3) if e.node is not None else None, {k:(show(v,3) if isinstance(v,Node) else v) for k,v in e.info.items()}, e.loc, [(show(c,4),p) for c,p in e.pc], e.loops)
    print("gaps",it.gaps)
    for l in it.loops.values(): print(l.id,l.kind,l.loc,show(l.iter,4) if l.iter is not None else None, show(l.cond,4) if l.cond is not None else None, {k:(v.id if isinstance(v,Node) else v) for k,v in l.mus.items()})
