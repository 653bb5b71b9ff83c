import sys, importlib, time, collections
sys.path.insert(0,'/verif')
m=importlib.import_module('contracts.'+sys.argv[1])
from pyvc import contract as C, logic as L, engine as E
c=[c for c in C.CONTRACTS.values() if c.short==sys.argv[2]][0]
class D(Exception): pass
def d(*a): raise D()
p=L.Prover()
of=p.feasible; cnt=collections.Counter()
def f(h,l=()):
    t=time.time(); r=of(h,l); cnt['n']+=1; cnt['t']+=time.time()-t; return r
p.feasible=f
oc=E.Engine.cut
def cut(self,*a):
    k,s=oc(self,*a); print('CUT',k); return k,s
E.Engine.cut=cut
ol=C.Engine.oblige
paths=[]
def ob(self,name,st,goal,node=None,extra=()):
    if not self.quiet and ('covered' in name or 'preserved' in name): print(name, node and node.lineno)
    return ol(self,name,st,goal,node,extra)
E.Engine.oblige=ob
C.discharge=d
t=time.time()
try: C.verify(c,p,C.table())
except D: pass
print(time.time()-t, cnt)
