"""Contracts (dual mode) and the driver that verifies one function against its
contract, plus evaluation of the same contract on real calls."""
from __future__ import annotations

import copy
import importlib
import time
import traceback

import z3

from . import logic as L
from .logic import *  # noqa
from .logic import And, Or, Not, Eq, isz
from .lib import *  # noqa
from .values import *  # noqa
from .values import St, K, S, T, R, O, It, ExcV, BM
from . import engine as E
from .engine import Engine, Oblig, Args, _aslist, Loop


class Case:
    def __init__(self, cond, kind, val=None, sort=None, exc=None, path=None, where=None, make=None, muts=None, fields=None, name='', excwhere=None):
        self.cond, self.kind, self.val, self.sort, self.exc, self.path = cond, kind, val, sort, exc, path
        self.where, self.make, self.muts, self.fields, self.name, self.excwhere = where, make, muts, fields, name, excwhere


class Lazy:
    def __init__(self, f):
        self.f = f


def ret(cond, val=None, **kw):
    if callable(val) and not isz(val):        # evaluated only where the case may apply
        val = None if cond is False else val()
    return Case(cond, 'ret', val, **kw)


def exc(cond, cls, path=None, **kw):
    if isinstance(path, Lazy):
        path = None if cond is False else path.f()
    return Case(cond, 'exc', exc=cls, path=path, **kw)


def may(cond, *alts, name=''):
    """the outcome is one of the alternatives"""
    c = Case(cond, 'may', name=name)
    c.alts = list(alts)
    c.muts = {p: t for a in alts for p, t in (a.muts or {}).items()}
    return c


class Obj:
    """A parameter that is an object of class `cls` with fields of known sort."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields


class Opq:
    """A parameter that is an opaque object (known by an abstract identity)."""

    def __init__(self, cls):
        self.cls = cls


class Const:
    """A parameter fixed to one concrete Python object."""

    def __init__(self, obj):
        self.obj = obj


def resolve(spec):
    """'marsh.path:split' -> object (raises when the name is gone)."""
    mod, _, qn = spec.partition(':')
    o = importlib.import_module(mod)
    for p in qn.split('.'):
        o = o.__dict__[p] if isinstance(o, type) and p in o.__dict__ else getattr(o, p)
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return o


CONTRACTS = {}      # name -> Contract


class Contract:
    def __init__(self, fn, sig, cases, ret='val', requires=None, loops=(), lemmas=(), name=None, prove=True,
                 runtime=True, modifies=(), retcls=None, exclusive=True, note='', pre=None, setup=None,
                 call=None, gens=None, timeout=None, assumed='', reuse_loops=False, recursive=False, short=None,
                 pyrequires=None, extra=None, body=None, unordered=False, variant=False, prune=False, final=None):
        self.final = final            # what holds at every end: f(engine, state, outcome, args) -> [Bool]
        self.prune = prune            # impossible paths are searched for with the lemmas at hand
        self.variant = variant        # a further contract of a function: not what callers are checked against
        self.unordered = unordered
        self.spec = fn
        self.error = None
        try:
            self.fn = resolve(fn)
        except Exception as err:      # the function is gone / renamed
            self.fn = None
            self.error = f'{type(err).__name__}: {err}'
        self.name = name or fn.replace(':', '.')
        self.short = short or self.name.split('.')[-1]
        self.sig, self._cases, self.ret = dict(sig), cases, ret
        self.pmap = self._param_names()
        self._requires = requires
        self.loops, self.lemmas, self.prove = list(loops), tuple(lemmas), prove
        # a private function may change together with its callers: only what it
        # proves counts, not how it behaves when it is called on its own
        self.runtime, self.modifies, self.retcls = runtime and not self.short.startswith('_'), modifies, retcls
        self.note, self.setup, self.gens = note, setup, gens or {}
        self.params = None
        self.total = True
        self.reuse_loops = reuse_loops
        self.call_real = call
        self.timeout = timeout
        self.assumed = assumed        # non empty: trusted, with this reason
        self.pyrequires = pyrequires
        self.extra = extra            # extra assumptions: f(args) -> [Bool]
        self.body = body
        import inspect
        self.module = inspect.currentframe().f_back.f_globals.get('__name__', '')
        assert self.name not in CONTRACTS, self.name
        CONTRACTS[self.name] = self

    def _param_names(self):
        """contract parameter -> parameter of the function: a renamed parameter
        is the one at the same position"""
        import inspect
        names = {p: p for p in self.sig}
        try:
            ps = list(inspect.signature(inspect.unwrap(self.fn)).parameters)
        except (TypeError, ValueError):
            return names
        gone = [p for p in self.sig if p not in ps]
        left = [p for p in ps if p not in self.sig]
        if gone and len(gone) == len(left):
            names.update(zip(gone, left))
        return names

    def requires(self, a):
        return _aslist(self._requires(a)) if self._requires else []

    def cases(self, a):
        return [c for c in self._cases(a) if c.cond is not False]

    def key(self):
        fn = self.fn
        return fn


def table(names=None):
    """function object -> Contract (what callers are checked against)."""
    out = {}
    for c in CONTRACTS.values():
        c.others = []
    for c in CONTRACTS.values():
        if c.fn is not None and not c.variant:
            if c.fn in out:      # one more contract, for other constant arguments
                out[c.fn].others.append(c)
                continue
            out[c.fn] = c
            w = getattr(c.fn, '__wrapped__', None)
            if w is not None:
                out[w] = c
    return out


class Report:
    def __init__(self, c):
        self.contract, self.obligs, self.error, self.paths, self.time, self.cases_hit = c, [], None, 0, 0.0, set()
        self.inlined, self.used, self.assumptions, self.notes = set(), set(), set(), []
        self.argterms = {}
        self.uncovered = []

    @property
    def ok(self):
        return self.error is None and bool(self.obligs) and all(o.result.status == 'proved' for o in self.obligs)

    def failed(self):
        return [o for o in self.obligs if o.result.status != 'proved']


def _build(e, st, name, sort, free=()):
    """(engine value, term for the contract) of one parameter."""
    if isinstance(sort, Const):
        return K(sort.obj), sort.obj
    if isinstance(sort, Obj):
        f, tv = {}, Args()
        for n, s in sort.fields.items():
            f[n], t = _build(e, st, f'{name}_{n}', s)
            setattr(tv, n, t)
            if isinstance(f[n], R) and (n in free or '*' in free):      # the contract says that it changes
                st.heap[f[n].loc].param = False
        ref = e.alloc(st, ObjCell(sort.cls, f, param=True))
        tv._ref = ref
        return ref, tv
    if isinstance(sort, Opq):
        t = z3.Const(name, Val)
        return O(t, sort.cls), t
    if callable(sort):
        return sort(e, st, name)
    if sort == 'lv':
        t = z3.Const(name, LV)
        c = ListCell(t, 'list', param=True)
        return e.alloc(st, c), t
    if sort == 'le':
        t = z3.Const(name, LE)
        return e.alloc(st, DictCell(t, 'dict', param=True)), t
    if sort == 'iter':      # an iterator: what is left of it
        t = z3.Const(name, LV)
        return e.alloc(st, ListCell(t, 'iter', param=True)), t
    if sort == 'gen':
        t = z3.Const(name, LV)
        return It('lv', t, plain='id'), t
    if sort == 'tuplelv':
        t = z3.Const(name, LV)
        return S('val', vseq(TUPLE, t)), t
    if sort == 'none':
        return K(None), None
    zs = {'str': Str, 'bool': Bool, 'int': Int, 'val': Val, 'float': Fl}[sort]
    t = z3.Const(name, zs)
    return S(sort, t), t


def _match(e, st, c, case, out, av, refs):
    """Bool: does the outcome satisfy the case's postcondition."""
    conds = []
    if case.kind == 'may':
        return Or(*[_match(e, st, c, a, out, av, refs) for a in case.alts])
    for p, t in (case.muts or {}).items():
        now = st.heap[refs[p].loc].term
        conds += _aslist(t(now)) if callable(t) and not isz(t) else [Eq(now, t)]
    for (p, f), (s, t) in (case.fields or {}).items():
        top, *inner = p.split('.')
        r = refs[top]
        for q in inner:
            r = st.heap[r.loc].fields[q]
        cs, x = e.coerce(st, st.heap[r.loc].fields[f], s)
        conds += cs + [Eq(x, t) if not callable(t) or isz(t) else And(*_aslist(t(x)))]
    if case.kind == 'ret':
        if isinstance(out, ExcV):
            return False
        sort = case.sort or c.ret
        if sort == 'gen':
            if not isinstance(out, It):
                return False
            t = e.it_term(out)
            if t is None:
                return False
            if case.val is not None:
                conds.append(Eq(t, case.val))
            if case.where is not None:
                conds += _aslist(case.where(t))
            if (case.exc is None) != (out.tail is None):
                return False
            if case.exc is not None:
                conds.append(_match_exc(e, st, case, out.tail))
            return And(*conds)
        if sort == 'any':
            if case.excwhere is not None:
                conds += _aslist(case.excwhere(e, st, out))
            return And(*conds)
        if isinstance(out, It):
            return False
        cs, t = e.coerce(st, out, sort)
        if any(x is False for x in cs):
            return False
        conds += cs
        if case.val is not None:
            if isinstance(sort, tuple):
                conds += _eqt(t, case.val)
            else:
                conds.append(Eq(t, case.val))
        if case.where is not None:
            conds += _aslist(case.where(t))
        return And(*conds)
    if not isinstance(out, ExcV):
        return False
    conds.append(_match_exc(e, st, case, out))
    return And(*conds)


def _eqt(a, b):
    out = []
    for x, y in zip(a, b):
        if isinstance(x, tuple) and not isz(y) and isinstance(y, tuple) and (not x or isinstance(x[0], tuple) or isz(x[0]) or not isinstance(x[0], (str, int))):
            out.append(Eq(x, y))
        else:
            out.append(Eq(x, y))
    return out


def _match_exc(e, st, case, out):
    cell = st.heap[out.ref.loc]
    if not issubclass(cell.cls, case.exc):
        return False
    cs = []
    if case.path is not None:
        c, t = e.coerce(st, cell.fields['path'], 'str')
        cs += c + (_aslist(case.path(t)) if callable(case.path) and not isz(case.path) else [Eq(t, case.path)])
    if case.excwhere is not None:
        cs += _aslist(case.excwhere(e, st, cell))
    return And(*cs)


def verify(c, prover, contracts, log=None, fast=False):
    rep = Report(c)
    t0 = time.time()
    try:
        if c.fn is None:
            raise Unsupported(f'function under contract not found: {c.error}')
        e = Engine(prover, contracts)
        e.cur, e.loops, e.cur_lemmas = c, c.loops, c.lemmas
        st = St()
        if c.setup:
            c.setup(e, st)
        av, env, refs = Args(), {}, {}
        for p, sort in c.sig.items():
            v, t = _build(e, st, p, sort, c.modifies)
            env[c.pmap[p]] = v
            setattr(av, p, t)
            if c.pmap[p] != p:
                e.rolemap[p] = c.pmap[p]
            if isinstance(v, R):
                refs[p] = v
                cell = st.heap[v.loc]
        av._st = st
        av._env = env
        e.cur_args = av
        pre = And(*c.requires(av))
        st.assume(pre)
        if c.extra:
            st.assume(*_aslist(c.extra(e, st, av)))
        cases = c.cases(av)
        for case in cases:
            for p in (case.muts or {}):
                st.heap[refs[p].loc].param = False
        if not e.feasible(st):
            raise Unsupported('the precondition is unsatisfiable (vacuous contract)')
        rep.argterms = {p: t for p, t in av.__dict__.items() if not p.startswith('_')}
        fn = c.fn
        if not hasattr(fn, '__code__') or fn.__code__.co_filename == contextlib_file():
            fn = fn.__wrapped__
        w = getattr(fn, '__wrapped__', None)
        if w is not None:
            fn = w
        if not E.in_repo(fn):
            raise Unsupported(f'{c.name} is not repository code')
        n = E.source_node(fn)
        owner = e.owner_of(fn)
        fullenv = {}
        a = n.args
        pos = a.posonlyargs + a.args
        d = fn.__defaults__ or ()
        for q, x in zip(pos[len(pos) - len(d):], d):
            fullenv[q.arg] = K(x)
        for k, x in (fn.__kwdefaults__ or {}).items():
            fullenv[k] = K(x)
        if a.vararg is not None:
            fullenv[a.vararg.arg] = T(())
        if a.kwarg is not None:
            fullenv[a.kwarg.arg] = E.PyDict({})
        params = [q.arg for q in pos + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        for p, v in env.items():
            if p not in params:
                raise Unsupported(f'parameter {p} is gone')
            fullenv[p] = v
        for q in params:
            if q not in fullenv:
                raise Unsupported(f'parameter {q} has no sort in the contract')
        e.start = st.fork()
        e.start.frames = {0: dict(fullenv)}
        outcomes = e.run_body(st, n, fn.__globals__, None, fullenv, c.name, owner, fn=fn)
        cover = {}
        for st1, out in outcomes:
            if not e.feasible(st1):
                continue
            rep.paths += 1
            matches = [(case, case.cond, _match(e, st1, c, case, out, av, refs)) for case in cases]
            live = []
            for i, (case, cond, mt) in enumerate(matches):
                if cond is True or e.feasible(st1, [cond]):
                    live.append((i, case, cond, mt))
            if c.final:
                e.oblige(f'path {rep.paths}: at the end', st1, And(*_aslist(c.final(e, st1, out, av))))
            what = 'returns' if not isinstance(out, ExcV) else f'raises {st1.heap[out.ref.loc].cls.__name__}'
            e.oblige(f'path {rep.paths} ({what}): covered by a case', st1, Or(*[cond for _, _, cond, _ in live]))
            for i, case, cond, mt in live:
                rep.cases_hit.add(i)
                cover.setdefault(i, []).append((list(st1.pc) + ([] if cond is True else [cond])))
                e.oblige(f'path {rep.paths} ({what}): post of case {case.name or i}', st1, mt, extra=[] if cond is True else [cond])
        rep.ncases = len(cases)
        e_lemmas = tuple(e.cur_lemmas)
        if rep.paths == 0:
            raise Unsupported('no path reaches an end of the function')
        rep.inlined, rep.used, rep.assumptions = e.inlined, set(e.used_contracts), e.assumptions
        rep.obligs = e.obligs
        # cover: some path of each case must not be contradictory
        quickp = Prover(timeout_ms=400, cvc5=False)
        for i, case in enumerate(cases):
            ok = False
            for hy in sorted(cover.get(i, []), key=len)[:6]:
                if quickp.check('cover', hy, False, e_lemmas).status != 'proved':
                    ok = True
                    break
            if not ok:
                rep.uncovered.append(case.name or str(i))
        if len(rep.uncovered) == len(cases):
            raise Unsupported('every path is contradictory (vacuous)')
        if len(e.obligs) > 80 and not fast:
            discharge(prover, e.obligs, c.timeout)
        for o in e.obligs:
            if o.result is None or o.result.status == 'again':
                o.result = prover.check(o.name, o.hyps, o.goal, o.lemmas, timeout=c.timeout)
            if log:
                log(f'   {o.result.status:8s} {o.result.backend:10s} {o.result.time:6.2f}s {o.name} {o.where}')
            if fast and o.result.status != 'proved':
                for o2 in e.obligs:
                    if o2.result is None:
                        o2.result = Result(o2.name, 'skipped', '-', 0.0, 'not attempted: an earlier obligation failed')
                break
    except (Unsupported, E.RoleMissing) as err:
        nd = getattr(err, 'node', None)
        rep.error = f'{type(err).__name__}: {err}' + (f' (line {nd.lineno})' if nd is not None and hasattr(nd, 'lineno') else '')
    except (z3.Z3Exception, TypeError, AttributeError, KeyError, IndexError, RecursionError, AssertionError, ValueError) as err:
        rep.error = f'engine: {type(err).__name__}: {err}'
        rep.notes.append(traceback.format_exc())
    rep.time = time.time() - t0
    return rep


def discharge(prover, obligs, timeout, jobs=4):
    """check many obligations in parallel; a few that fail are left to the
    caller, who needs their models"""
    import os
    import pickle
    chunks = [obligs[i::jobs] for i in range(jobs)]
    pipes = []
    for ch in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                res = []
                for o in ch:
                    x = prover.check(o.name, o.hyps, o.goal, o.lemmas, timeout=timeout)
                    x.model = None
                    res.append(x)
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(res, fp)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        pipes.append((pid, r, ch))
    failed = 0
    for pid, r, ch in pipes:
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
        os.waitpid(pid, 0)
        for o, x in zip(ch, pickle.loads(data) if data else []):
            o.result = x
            prover.time += x.time
            prover.n_queries += 1
            if x.status != 'proved':
                failed += 1
                if failed <= 8:
                    x.status = 'again'


def contextlib_file():
    import contextlib
    return contextlib.__file__


# ------------------------------------------------------------ runtime mode
class Skip(Exception):
    """The input is outside the contract's precondition."""


def to_term(x, sort):
    if sort == 'str':
        if type(x) is not str:
            raise Skip
        return L.S(x)
    if sort in ('int', 'bool', 'float'):
        if type(x) is not {'int': int, 'bool': bool, 'float': float}[sort]:
            raise Skip
        return x
    if sort == 'val':
        return toval(x)
    if sort in ('lv', 'gen', 'tuplelv'):
        return tuple(toval(i) for i in x)
    if sort == 'le':
        return tuple((toval(k), toval(v)) for k, v in x.items())
    if sort == 'none':
        return ()
    if isinstance(sort, Const):
        return sort.obj
    if isinstance(sort, tuple) and sort[0] == 'tuple':
        return tuple(to_term(i, s) for i, s in zip(x, sort[1:]))
    raise Skip


def _res_term(x, sort):
    """result of a real call at a sort; raises TypeError when it is not of it"""
    py = {'str': str, 'int': int, 'bool': bool, 'float': float}.get(sort)
    if py and type(x) is not py:
        raise TypeError(f'result {x!r} is not of type {sort}')
    if sort == 'none':
        if x is not None:
            raise TypeError(f'result {x!r} is not None')
        return ()
    if sort == 'lv' and not isinstance(x, (list, tuple)):
        raise TypeError(f'result {x!r} is not a list or tuple')
    if sort == 'le' and not isinstance(x, dict):
        raise TypeError(f'result {x!r} is not a dict')
    if isinstance(sort, tuple) and sort[0] == 'tuple' and not (isinstance(x, tuple) and len(x) == len(sort) - 1):
        raise TypeError(f'result {x!r} is not a tuple of length {len(sort) - 1}')
    return to_term(x, sort)


def run_contract(c, args):
    """Evaluate the contract on one real call.  None = holds; string = what is
    wrong; raises Skip if the precondition does not hold."""
    av = Args()
    for p, sort in c.sig.items():
        setattr(av, p, to_term(args[p], sort))
    for r in c.requires(av):
        if r is not True:
            raise Skip
    cases = [k for k in c.cases(av) if k.cond is True]
    if not cases:
        return 'no case of the contract applies'
    call_args = {c.pmap[p] if not c.call_real else p: (a if not isinstance(a, (list, dict)) else copy.deepcopy(a)) for p, a in args.items()}
    if not c.call_real:
        import inspect
        try:
            inspect.signature(c.fn).bind(**call_args)
        except TypeError:
            raise Skip      # the function has another signature now
    before = {p: toval(a) for p, a in call_args.items() if isinstance(a, (list, dict, tuple))}
    fn = c.fn
    ys, err, val = [], None, None
    try:
        val = c.call_real(fn, call_args) if c.call_real else fn(**call_args)
        if (cases[0].sort or c.ret) == 'gen':
            for y in val:
                ys.append(y)
    except Exception as x:      # noqa
        err = x
    except BaseException as x:
        return f'raised {x!r}'
    muts = {}
    for k in cases:
        muts.update(k.muts or {})
    back = {} if c.call_real else {r: p for p, r in c.pmap.items()}
    for p, b in before.items():
        want = muts.get(back.get(p, p))
        now = toval(call_args[p])
        if want is None:
            if now != b:
                return f'argument {p} was modified: {args[back.get(p, p)]!r} became {call_args[p]!r}'
        elif callable(want):
            if not all(x is True for x in _aslist(want(now[2]))):
                return f'argument {p} became {call_args[p]!r}, which violates the contract'
        elif now[2] != want:
            return f'argument {p} became {call_args[p]!r}, contract says {want!r}'
    msgs = []
    for k in cases:
        m = _check_case(c, k, val, ys, err)
        if m:
            msgs.append(m)
    return msgs[0] if msgs else None


def _check_case(c, k, val, ys, err):
    if k.kind == 'may':
        ms = [_check_case(c, a, val, ys, err) for a in k.alts]
        return None if any(m is None for m in ms) else ms[0]
    sort = k.sort or c.ret
    if k.kind == 'exc' or (sort == 'gen' and k.exc is not None):
        if err is None:
            return f'returned {val!r} where {k.exc.__name__} is required'
        m = _check_exc(k, err)
        if m or k.kind == 'exc':
            return m
    elif err is not None:
        return f'raised {type(err).__name__}: {err} where a result is required'
    if sort == 'gen':
        t = tuple(toval(y) for y in ys)
        if k.val is not None and t != k.val:
            return f'yielded {ys!r}, contract says {[unval(x) for x in k.val]!r}'
        if k.where is not None and not all(x is True for x in _aslist(k.where(t))):
            return f'yielded {ys!r} which violates the postcondition'
        return None
    if sort == 'any':
        return None
    try:
        t = _res_term(val, sort)
    except TypeError as x:
        return str(x)
    if k.val is not None and not (L._ceq(t, k.val) or c.unordered and unval(t) == unval(k.val)):
        return f'returned {val!r}, contract says {_show(k.val, sort)}'
    if k.where is not None and not all(x is True for x in _aslist(k.where(t))):
        return f'returned {val!r} which violates the postcondition'
    return None


def _check_exc(k, err):
    if k.exc.__name__ == 'OtherError':
        import marsh
        if isinstance(err, marsh.errors.MarshError):
            return f'raised {type(err).__name__}: {err}'
        return None
    if not isinstance(err, k.exc):
        return f'raised {type(err).__name__}: {err} where {k.exc.__name__} is required'
    if callable(k.path):
        if not all(x is True for x in _aslist(k.path(L.S(err.path)))):
            return f'exception path {err.path!r} violates the contract'
    elif k.path is not None and L.S(err.path) != k.path:
        return f'exception path {err.path!r}, contract says {L.unS(k.path)!r}'
    return None


def _show(t, sort):
    try:
        if sort == 'str':
            return repr(L.unS(t))
        if sort in ('lv',):
            return repr([unval(x) for x in t])
        if sort == 'val':
            return repr(unval(t))
        return repr(t)
    except Exception:
        return repr(t)


# -------------------------------------------- decoding solver counterexamples
def decode(m, t, sort):
    """Python object of a term in a model."""
    v = m.eval(t, model_completion=True)
    return _dec(v)


def _dec(v):
    n = v.decl().name()
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if n in ('snil', 'scons'):
        out = []
        while v.decl().name() == 'scons':
            x = v.arg(0).as_long()
            out.append(chr(x) if 0 <= x < 0x110000 and not 0xd800 <= x < 0xe000 else chr(0x4e00 + x % 1000))
            v = v.arg(1)
        return ''.join(out)
    if n == 'VNone':
        return None
    if n in ('VBool', 'VInt', 'VStr'):
        return _dec(v.arg(0))
    if n == 'VFloat':
        f = v.arg(0)
        if f.decl().name() == 'FNaN':
            return float('nan')
        if f.decl().name() == 'FInf':
            return float('-inf') if z3.is_true(f.arg(0)) else float('inf')
        return float(f.arg(0).as_fraction())
    if n == 'VBytes':
        return bytes(ord(c) % 256 for c in _dec(v.arg(0)))
    if n == 'VSeq':
        xs = _dec(v.arg(1))
        return xs if v.arg(0).as_long() == LIST else tuple(xs)
    if n == 'VMap':
        return _dec(v.arg(1))
    if n in ('lnil', 'lcons'):
        out = []
        while v.decl().name() == 'lcons':
            out.append(_dec(v.arg(0)))
            v = v.arg(1)
        return out
    if n in ('enil', 'econs'):
        out = {}
        while v.decl().name() == 'econs':
            out[_dec(v.arg(0))] = _dec(v.arg(1))
            v = v.arg(2)
        return out
    raise Skip


def replay_model(c, rep):
    """Try the solver's candidate models on the real code."""
    for o in rep.failed():
        m = o.result.model if o.result else None
        if m is None or not c.runtime:
            continue
        try:
            args = {p: decode(m, t, None) if isz(t) else t for p, t in rep.argterms.items()}
            msg = run_contract(c, args)
        except (Skip, z3.Z3Exception, Exception):
            continue
        if msg:
            return args, msg
    return None
