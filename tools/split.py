import sys, importlib, time
sys.path.insert(0,'/verif')
m=importlib.import_module('contracts.'+sys.argv[1])
from pyvc import contract as C, logic as L
import z3
c=[c for c in C.CONTRACTS.values() if c.short==sys.argv[2]][0]
p=L.Prover()
rep=C.verify(c,p,C.table())
print(rep.error)
def conj(g):
    if z3.is_and(g): return [x for y in g.children() for x in conj(y)]
    return [g]
for o in rep.obligs:
    if o.result.status!='proved':
        print('==',o.name,o.where)
        for h in o.hyps: print('  H', str(L.z3.simplify(h))[:1500] if L.isz(h) else h)
        for g in conj(L.lift(o.goal,L.Bool)):
            r=L.Prover(timeout_ms=8000).check('x',o.hyps,g,o.lemmas)
            print('   G',r.status,round(r.time,2),str(z3.simplify(g))[:400])
