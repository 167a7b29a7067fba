import sys; sys.path.insert(0,'/verif')
from glasscheck.project import Project
from glasscheck.interp import *
from glasscheck.util import entries
from collections import Counter
p=Project(); C=Counter(); K=Counter()
for q in entries(p):
    it=analyse(p,q)
    for e in it.events:
        K[e.kind]+=1
        if e.kind=='extcall': C['ext '+str(e.info['fn'])]+=1
        if e.kind=='nscall': C['ns %s.%s'%(e.info['ns'],e.info['name'])]+=1
print(K)
for k,v in sorted(C.items()): print(k,v)
