"""run.py <property>: discharge the obligations generated from /repo's current
source, evaluate the bounded oracles, write the evidence, report."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EVID = os.path.join(VERIF, 'evidence')


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def with_alarm(secs, f):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def load(pid):
    import props  # noqa
    importlib.import_module(f'props.{pid}')
    from .prop import PROPS
    p = PROPS[pid]
    p.load_errors = []
    for m in p.modules:
        try:
            importlib.import_module('contracts.' + m)
        except Exception as e:      # noqa  a name the contracts need is gone
            p.load_errors.append(f'contracts.{m}: {type(e).__name__}: {e}')
    return p


def prop_contracts(p):
    from . import contract as C
    if p._contracts is not None:
        out = []
        for n in p._contracts:
            c = next((c for c in C.CONTRACTS.values() if n in (c.short, c.name)), None)
            if c is None:
                if not p.load_errors:
                    raise KeyError(n)
                continue
            out.append(c)
        return out
    mods = {'contracts.' + m for m in p.modules}
    return [c for c in C.CONTRACTS.values() if c.module in mods]


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


# ------------------------------------------------------------------ tasks
def task_lemmas(names, timeout):
    from . import logic as L
    p = L.Prover(timeout_ms=timeout)
    out = []
    for n in names:
        for nm, hyps, goal in L.LEMMAS[n].obligations():
            r = p.check(nm, hyps, goal, lemmas=() if L.LEMMAS[n].by else L.LEMMAS[n].uses)
            if r.status != 'proved':
                r2 = L.Prover(timeout_ms=4 * timeout, seed=7).check(nm, hyps, goal, lemmas=() if L.LEMMAS[n].by else L.LEMMAS[n].uses)
                r2.time += r.time
                r = r2
            out.append(dict(kind='lemma', name=nm, status=r.status, backend=r.backend, time=r.time, reason=r.reason))
    if out:
        out[0]['unints'] = sorted(L.Unint.used)
    return out


def task_contract(name, timeout):
    from . import logic as L, contract as C
    c = C.CONTRACTS[name]
    p = L.Prover(timeout_ms=timeout)
    rep = C.verify(c, p, C.table())
    for o in rep.obligs:
        if o.result is not None and o.result.status == 'failed':
            r = L.Prover(timeout_ms=3 * timeout, seed=11).check(o.name, o.hyps, o.goal, o.lemmas)
            r.time += o.result.time
            if r.model is None:
                r.model = o.result.model
            o.result = r
    out = dict(kind='contract', name=name, error=rep.error, paths=rep.paths, time=rep.time, notes=rep.notes[:1],
               inlined=sorted(rep.inlined), used=sorted(rep.used), assumptions=sorted(rep.assumptions),
               solver_time=p.time, queries=p.n_queries, replay=None, unints=sorted(L.Unint.used),
               obligs=[dict(name=o.name, where=o.where, status=o.result.status, backend=o.result.backend, time=o.result.time, reason=o.result.reason,
                            facts=[f for f in o.result.facts]) for o in rep.obligs if o.result is not None])
    if not rep.ok and rep.error is None:
        for o, od in zip(rep.obligs, out['obligs']):
            if o.result.status != 'proved':
                try:
                    s = p._solver(1000)
                    for h in o.hyps:
                        s.add(L.lift(h, L.Bool))
                    s.add(L.z3.Not(L.lift(o.goal, L.Bool)))
                    od['smt2'] = s.to_smt2()[:20000]
                except Exception as e:     # noqa
                    od['smt2'] = f'({e})'
        if c.runtime:
            try:
                out['replay'] = with_alarm(20, lambda: C.replay_model(c, rep))
            except (CaseTimeout, Exception):     # noqa
                out['replay'] = None
        if out['replay']:
            out['replay'] = (repr(out['replay'][0]), out['replay'][1])
    return out


def task_oracle(p, oname, seed, n, budget, known):
    """evaluate one oracle: dict(evaluations, distinct, samples, fail)"""
    from .prop import Skip
    o = p.oracles[oname]
    rng = random.Random(seed_of(p.id, oname, seed))
    seen, samples, evals, skipped = set(), [], 0, 0
    t0 = time.time()
    knownhits = []

    def inputs():
        if o.enum is not None:
            for a in o.enum():
                yield a
        if o.gen is not None:
            for _ in range(n):
                yield o.gen(rng)
    for a in inputs():
        if time.time() - t0 > budget:
            break
        if not isinstance(a, tuple):
            a = (a,)
        r = repr(a)
        try:
            msg = with_alarm(15, lambda: o.fn(*a))
        except Skip:
            skipped += 1
            continue
        except CaseTimeout:
            msg = 'did not terminate within 15 s'
        except MemoryError:
            msg = 'exhausted memory'
        except RecursionError:
            msg = 'RecursionError'
        except Exception as e:      # noqa
            msg = f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-4)
        evals += 1
        h = hashlib.sha256(r.encode()).digest()[:8]
        if h not in seen:
            seen.add(h)
            if len(samples) < 3 or (evals in (50, 500)):
                samples.append(f'{oname}{r[:400]}')
        if msg:
            if (oname, r) in known:
                knownhits.append((oname, r, msg))
                continue
            return dict(kind='oracle', name=oname, evaluations=evals, distinct=len(seen), skipped=skipped, samples=samples, fail=(r, msg), known=knownhits)
    return dict(kind='oracle', name=oname, evaluations=evals, distinct=len(seen), skipped=skipped, samples=samples, fail=None, known=knownhits)


def task_runtime(cname, seed, n, budget):
    """evaluate one contract on real calls"""
    from . import contract as C
    from .gens import gen_args
    c = C.CONTRACTS[cname]
    rng = random.Random(seed_of('rt', cname, seed))
    evals, skipped, seen, samples, t0 = 0, 0, set(), [], time.time()
    for i in range(n):
        if time.time() - t0 > budget:
            break
        try:
            args = gen_args(c, rng)
            r = repr(args)
            msg = with_alarm(15, lambda: C.run_contract(c, args))
        except C.Skip:
            skipped += 1
            continue
        except CaseTimeout:
            msg = 'did not terminate within 15 s'
        except Exception as e:      # noqa
            msg = f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-4)
        evals += 1
        seen.add(hashlib.sha256(r.encode()).digest()[:8])
        if len(samples) < 1 and evals > 5:
            samples.append(f'{cname} {r[:300]}')
        if msg:
            return dict(kind='runtime', name=cname, evaluations=evals, distinct=len(seen), skipped=skipped, samples=samples, fail=(r, msg))
    return dict(kind='runtime', name=cname, evaluations=evals, distinct=len(seen), skipped=skipped, samples=samples, fail=None)


# ------------------------------------------------------------- task manager
def _child(conn, f, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(6000)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        conn.send(('ok', f(*args)))
    except CaseTimeout:
        conn.send(('err', 'timeout'))
    except BaseException as e:      # noqa
        try:
            conn.send(('err', f'{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}'))
        except Exception:       # noqa
            pass
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, jobs=8, limit=240, stop=None):
    """tasks: [(key, fn, args)] -> {key: (status, value)}"""
    ctx = mp.get_context('fork')
    todo, live, out = list(tasks), {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            key, f, a = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            pr = ctx.Process(target=_child, args=(wr, f, a), daemon=True)
            pr.start()
            wr.close()
            live[key] = (pr, rd, time.time())
        rds = {v[1]: k for k, v in live.items()}
        for rd in mp.connection.wait(list(rds), timeout=0.5):
            k = rds[rd]
            pr = live.pop(k)[0]
            try:
                out[k] = rd.recv()
            except (EOFError, OSError):
                out[k] = ('err', 'worker died')
            pr.join(5)
            rd.close()
        now = time.time()
        for k, (pr, rd, t) in list(live.items()):
            if now - t > limit:
                pr.kill()
                pr.join()
                live.pop(k)
                out[k] = ('err', f'no result within {limit} s')
        if stop and stop(out):
            for k, (pr, rd, t) in live.items():
                pr.kill()
                pr.join()
            break
    return out


# ------------------------------------------------------------------ findings
def load_known():
    """known_findings.jsonl: one JSON object per line."""
    out = []
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('{'):        # other lines are `fixed:` records
                out.append(json.loads(line))
    return out


def closure(lemmas):
    from . import logic as L
    done, todo = [], list(lemmas)
    while todo:
        n = todo.pop()
        if n not in done:
            done.append(n)
            todo.extend(L.LEMMAS[n].uses)
    return done


def main(argv):
    pid = argv[0]
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    proofs = '--no-proofs' not in argv
    try:
        p = load(pid)
    except Exception as e:      # noqa   the code under contract cannot even be loaded
        return load_failure(pid, tier, seed, t0, e)
    from . import logic as L, contract as C
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    knownset = {(k['oracle'], k['args']) for k in known}
    cs = prop_contracts(p)
    lems = [n for n in p.lemmas if n in L.LEMMAS]
    proving = [c for c in cs if c.prove and not c.assumed]
    mult = 1 if tier == 'quick' else 12
    budget = 25 if tier == 'quick' else 240
    timeout = 8000 if tier == 'quick' else 30000
    tasks = []
    if proofs:
        lem = closure(lems + [n for c in proving for n in c.lemmas])
        slow = [n for n in lem]
        chunk = max(1, (len(slow) + 7) // 8)
        for c in proving:
            tasks.append((('contract', c.name), task_contract, (c.name, timeout)))
        for i in range(0, len(slow), chunk):
            tasks.append((('lemmas', i), task_lemmas, (slow[i:i + chunk], timeout)))
    for o in p.oracles.values():
        tasks.append((('oracle', o.name), task_oracle, (p, o.name, seed, o.n * mult, budget, knownset)))
    for c in cs:
        if c.runtime and c.fn is not None:
            tasks.append((('runtime', c.name), task_runtime, (c.name, seed, 300 * mult, budget / 2)))
    res = run_tasks(tasks, limit=300 if tier == 'quick' else 2400)
    # ---------------------------------------------------------- judge
    fails, undecided, failed_obl = [], list(p.load_errors), []
    obl = dict(total=0, proved=0)
    backends, solver_time = {}, 0.0
    fnrep, assumptions, contracts_used, unints = {}, set(), set(), set()
    evals = distinct = 0
    samples, knownhits, errors = [], [], []
    for k, (st, v) in res.items():
        if st != 'ok':
            if k[0] in ('contract', 'lemmas'):
                undecided.append(f'{k[0]} {k[1]}: {v}')
            else:
                errors.append(f'{k[0]} {k[1]}: {v}')
            continue
        if k[0] == 'lemmas':
            for r in v:
                unints |= set(r.pop('unints', ()))
                obl['total'] += 1
                solver_time += r['time']
                if r['status'] == 'proved':
                    obl['proved'] += 1
                    backends[r['backend']] = backends.get(r['backend'], 0) + 1
                else:
                    failed_obl.append(dict(function='lemma', **r))
        elif k[0] == 'contract':
            d = dict(paths=v['paths'], obligations=len(v['obligs']), time_s=round(v['time'], 2), inlined=v['inlined'], callee_contracts=v['used'])
            fnrep[v['name']] = d
            contracts_used |= set(v['used'])
            unints |= set(v['unints'])
            solver_time += v['solver_time']
            assumptions |= set(v['assumptions'])
            if v['error']:
                d['undecided'] = v['error']
                undecided.append(f"{v['name']}: {v['error']}")
                d['obligations'] = 0
                continue
            for o in v['obligs']:
                obl['total'] += 1
                if o['status'] == 'proved':
                    obl['proved'] += 1
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
                else:
                    failed_obl.append(dict(function=v['name'], **o))
            if v['replay']:
                fails.append(dict(kind='runtime', name=v['name'], args=v['replay'][0], message=v['replay'][1], source='solver counterexample replayed on the real code'))
        else:
            evals += v['evaluations']
            distinct += v['distinct']
            samples += v['samples']
            knownhits += v.get('known', [])
            if v['fail']:
                fails.append(dict(kind=v['kind'], name=v['name'], args=v['fail'][0], message=v['fail'][1], source='bounded evaluation'))
    if failed_obl and not fails:        # look harder for a failing input
        t2 = []
        for s in range(2, 6):
            for o in p.oracles.values():
                if o.gen is not None:
                    t2.append((('oracle', o.name, s), task_oracle, (p, o.name, seed + 1000 * s, o.n * 4 * mult, 40, knownset)))
        for c in cs:
            if c.runtime and c.fn is not None:
                t2.append((('runtime', c.name, 2), task_runtime, (c.name, seed + 1000, 5000 * mult, 30)))
        r2 = run_tasks(t2, limit=120, stop=lambda o: any(st == 'ok' and v['fail'] for st, v in o.values()))
        for k, (st, v) in r2.items():
            if st == 'ok':
                evals += v['evaluations']
                if v['fail']:
                    fails.append(dict(kind=v['kind'], name=v['name'], args=v['fail'][0], message=v['fail'][1], source='search started by a failed obligation'))
    none_proved = proofs and (proving or p.lemmas) and not any(d['obligations'] and 'undecided' not in d for d in fnrep.values()) and bool(proving)
    # ---------------------------------------------------------- evidence
    wall = time.time() - t0
    assumed = [f'contract of {c.name}: {c.assumed}' for c in C.CONTRACTS.values() if c.assumed and (c in cs or c.name in contracts_used)]
    others = sorted(n for n in contracts_used if n not in {c.name for c in cs} and not C.CONTRACTS[n].assumed)
    unint = sorted({f'{u.name}: {u.doc}' for u in L.REGISTRY.values() if isinstance(u, L.Unint) and u.assumed and u.doc and u.name in unints})
    trusted = ['pyvc verification condition generator (/verif/pyvc), z3 and cvc5', 'CPython semantics as modelled in pyvc/engine.py and pyvc/builtin_models.py'] + p.trusted
    ev = dict(
        property=pid, tier=tier, seed=seed, level=p.level, wall_s=round(wall, 2), violations=len(fails) or len(failed_obl),
        assumptions=sorted(assumptions) + assumed + [f'contract of {n} (callee; discharged by the check of another property)' for n in others]
        + ['uninterpreted/partly axiomatised: ' + u for u in unint] + p.limits,
        coverage=dict(
            obligations=obl['total'], discharged=obl['proved'], backends=backends, solver_time_s=round(solver_time, 2),
            checker_cmd=f'/verif/check.sh {pid}', trusted_base=trusted,
            functions_under_contract=fnrep, lemmas=len(closure(lems + [n for c in proving for n in c.lemmas])) if proofs else 0,
            undecided=undecided, failed_obligations=[f"{o['function']}: {o['name']} {o.get('where', '')}" for o in failed_obl],
            bounded=dict(note='bounded evaluation of the contracts and of property-level oracles on the real code; not counted as proved',
                         functions_only_bounded=p.bounded, errors=errors),
            evaluations=evals, distinct_nontrivial=distinct, rule=p.rule or 'random and enumerated inputs; counted when the precondition holds and the representation differs', samples=samples[:12],
        ))
    for h in sorted({(k['oracle'], k['args'], k['what']) for k in known} if known else ()):
        print(f'KNOWN-FINDING: property={pid} {h[2]}')
    for e in undecided:
        print('UNDECIDED (outside the verified subset; the bounded check stands in):', e.split('\n')[0])
    for e in errors:
        print('BOUNDED-ERROR:', e)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)
    print(f'{pid}: {obl["proved"]}/{obl["total"]} obligations discharged {backends}, {evals} bounded evaluations, {wall:.1f} s')
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, f'{pid}.json')
    if fails:
        fails.sort(key=lambda f: (f['kind'] != 'oracle', len(f['args'])))
        with open(rfile, 'w') as fp:
            json.dump(dict(property=pid, **fails[0], others=fails[1:5], failed_obligations=failed_obl[:10],
                           how=f'/verif/check.sh {pid} --replay {rfile}'), fp, indent=1, default=str)
        print('failing input:', fails[0]['name'], fails[0]['args'][:500])
        print(fails[0]['message'][:1500])
        print(f'VIOLATION property={pid} replay={rfile}')
        return 1
    if failed_obl or none_proved or (errors and any('oracle' in e for e in errors)):
        with open(rfile, 'w') as fp:
            json.dump(dict(property=pid, kind='obligation', failed_obligations=failed_obl[:10], undecided=undecided, errors=errors), fp, indent=1, default=str)
        for o in failed_obl[:5]:
            print('failed obligation:', o['function'], '|', o['name'], o.get('where', ''), '|', o['reason'])
        print(f'VIOLATION property={pid} replay={rfile} no-failing-input-found')
        return 1
    return 0


def load_failure(pid, tier, seed, t0, e):
    rfile = os.path.join(EVID, 'replay', f'{pid}.json')
    os.makedirs(os.path.dirname(rfile), exist_ok=True)
    tb = traceback.format_exc()
    with open(rfile, 'w') as fp:
        json.dump(dict(property=pid, kind='load', error=tb), fp)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as fp:
        json.dump(dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2),
                       coverage=dict(explanation=f'the code could not be loaded: {e}')), fp)
    print(tb)
    print(f'VIOLATION property={pid} replay={rfile} no-failing-input-found')
    return 1


def replay(pid, fn):
    """re-run the recorded failing input"""
    p = load(pid)
    d = json.load(open(fn))
    from . import contract as C
    ns = {'inf': float('inf'), 'nan': float('nan')}
    if d['kind'] == 'oracle':
        args = eval(d['args'], dict(ns, **getattr(p, 'replay_ns', {})))
        print(p.oracles[d['name']].fn(*args))
    elif d['kind'] == 'runtime':
        print(C.run_contract(C.CONTRACTS[d['name']], eval(d['args'], ns)))
    else:
        print(json.dumps(d, indent=1))
    return 0
