"""dev.py module [names...]: verify contracts verbosely (development aid)."""
import sys, importlib, time
mod = importlib.import_module('contracts.' + sys.argv[1])
from pyvc.logic import *
from pyvc import logic as L, contract as C
names = sys.argv[2:]
p = Prover(timeout_ms=6000)
tab = C.table()
if not names or 'lemmas' in names:
    done, res = set(), []
    for n in list(L.LEMMAS):
        prove_lemma(p, n, done, res)
    for r in res:
        if r.status != 'proved' or r.time > 1:
            print('LEMMA', r.status, r.name, r.backend, round(r.time, 2), r.reason)
    print(len(res), 'lemma obligations')
for c in C.CONTRACTS.values():
    if names and c.short not in names and c.name not in names:
        continue
    if not c.prove or c.assumed:
        continue
    r = C.verify(c, p, tab, log=print if names else None)
    print('OK ' if r.ok else 'BAD', c.name, r.paths, 'paths', len(r.obligs), 'obligs', round(r.time, 1), 's', r.error or '', sorted(r.inlined), 'UNCOVERED ' + str(r.uncovered) if r.uncovered else '')
    if r.notes and names: print(r.notes[0])
    for o in r.failed() if not r.error else ():
        print('   FAILED', o.name, o.where, o.result.reason)
    if not r.ok:
        print('   replay:', C.replay_model(c, r))
