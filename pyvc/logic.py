"""Logic layer: sorts, dual-mode (z3 term / concrete Python) operations,
recursive specification functions, lemmas and the prover.

Every operation in here works in two modes.  On z3 terms it builds terms; on
concrete data it computes.  Concrete data:

  Str   tuple of int code points
  LV    tuple of Val
  LE    tuple of (Val, Val)
  Val   ('N',) ('B',bool) ('I',int) ('F',float) ('S',Str) ('Y',Str)
        ('Q',kind,LV) ('M',kind,LE) ('C',int)

so that one and the same contract is (a) compiled to solver axioms and proved
against the real source and (b) evaluated on real calls.
"""
from __future__ import annotations

import dataclasses
import itertools
import os
import subprocess
import tempfile
import time

import z3

# --------------------------------------------------------------- sorts
_Str = z3.Datatype('Str')
_Str.declare('snil')
_Str.declare('scons', ('sh', z3.IntSort()), ('stl', _Str))
Str = _Str.create()

_Fl = z3.Datatype('Fl')
_Fl.declare('FNaN')
_Fl.declare('FInf', ('fneg', z3.BoolSort()))
_Fl.declare('FFin', ('fval', z3.RealSort()))
Fl = _Fl.create()

_Val = z3.Datatype('Val')
_LV = z3.Datatype('LV')
_LE = z3.Datatype('LE')
_Val.declare('VNone')
_Val.declare('VBool', ('vb', z3.BoolSort()))
_Val.declare('VInt', ('vi', z3.IntSort()))
_Val.declare('VFloat', ('vf', Fl))
_Val.declare('VStr', ('vs', Str))
_Val.declare('VBytes', ('vy', Str))
_Val.declare('VSeq', ('qk', z3.IntSort()), ('qi', _LV))
_Val.declare('VMap', ('mk', z3.IntSort()), ('me', _LE))
_Val.declare('VConst', ('vc', z3.IntSort()))
_LV.declare('lnil')
_LV.declare('lcons', ('lh', _Val), ('lt', _LV))
_LE.declare('enil')
_LE.declare('econs', ('ek', _Val), ('ev', _Val), ('et', _LE))
Val, LV, LE = z3.CreateDatatypes(_Val, _LV, _LE)

Int, Bool, Real = z3.IntSort(), z3.BoolSort(), z3.RealSort()
LIST, TUPLE, SEQO = 0, 1, 2     # kinds of VSeq: list, tuple, anything else
DICT, MAPO = 0, 1               # kinds of VMap: dict, anything else


def isz(x):
    return isinstance(x, z3.ExprRef)


def anyz(*xs):
    return any(isinstance(x, z3.ExprRef) for x in xs)


def lift(x, sort):
    """Turn concrete data into a z3 term of the given sort."""
    if isinstance(x, z3.ExprRef):
        if x.sort() != sort:
            raise TypeError(f'sort mismatch: {x.sort()} where {sort} expected: {x}')
        return x
    if callable(x):
        return lift(x(), sort)
    if sort == Bool:
        return z3.BoolVal(bool(x))
    if sort == Int:
        return z3.IntVal(x)
    if sort == Real:
        return z3.RealVal(x)
    if sort == Str:
        r = Str.snil
        for c in reversed(x):
            r = Str.scons(lift(c, Int), r)
        return r
    if sort == LV:
        r = LV.lnil
        for c in reversed(x):
            r = LV.lcons(lift(c, Val), r)
        return r
    if sort == LE:
        r = LE.enil
        for k, v in reversed(x):
            r = LE.econs(lift(k, Val), lift(v, Val), r)
        return r
    if sort == Fl:
        if x != x:
            return Fl.FNaN
        if x in (float('inf'), float('-inf')):
            return Fl.FInf(x < 0)
        from fractions import Fraction
        f = Fraction(x)
        return Fl.FFin(z3.RealVal(f'{f.numerator}/{f.denominator}'))
    if sort == Val:
        t = x[0]
        if t == 'N':
            return Val.VNone
        if t == 'B':
            return Val.VBool(lift(x[1], Bool))
        if t == 'I':
            return Val.VInt(lift(x[1], Int))
        if t == 'F':
            return Val.VFloat(lift(x[1], Fl))
        if t == 'S':
            return Val.VStr(lift(x[1], Str))
        if t == 'Y':
            return Val.VBytes(lift(x[1], Str))
        if t == 'Q':
            return Val.VSeq(lift(x[1], Int), lift(x[2], LV))
        if t == 'M':
            return Val.VMap(lift(x[1], Int), lift(x[2], LE))
        if t == 'C':
            return Val.VConst(lift(x[1], Int))
    raise TypeError(f'cannot lift {x!r} to {sort}')


def S(text):
    """Concrete Str of a Python string."""
    return tuple(map(ord, text))


def unS(s):
    return ''.join(map(chr, s))


# ------------------------------------------------------- boolean / ite
def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def Eq(a, b):
    if not anyz(a, b):
        return _ceq(a, b)
    if isz(a):
        return a == lift(b, a.sort())
    return lift(a, b.sort()) == b


def _ceq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_ceq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if type(a) is not type(b) and (isinstance(a, (str, tuple)) or isinstance(b, (str, tuple))):
        return False
    return a == b


def Ne(a, b):
    return Not(Eq(a, b))


def Ite(c, a, b, sort=None):
    """a and b may be thunks (delayed)."""
    if isinstance(c, bool):
        r = a if c else b
        while callable(r) and not isz(r):
            r = r()
        return r
    while callable(a) and not isz(a):
        a = a()
    while callable(b) and not isz(b):
        b = b()
    if sort is None:
        if isz(a):
            sort = a.sort()
        elif isz(b):
            sort = b.sort()
        elif isinstance(a, bool) and isinstance(b, bool):
            sort = Bool
        elif isinstance(a, int) and isinstance(b, int):
            sort = Int
        else:
            raise TypeError(f'Ite: unknown sort for {a!r} {b!r}')
    a, b = lift(a, sort), lift(b, sort)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ------------------------------------------------------- constructors
def scons(c, s):
    if anyz(c, s):
        return Str.scons(lift(c, Int), lift(s, Str))
    return (c,) + s


def lcons(v, xs):
    if anyz(v, xs):
        return LV.lcons(lift(v, Val), lift(xs, LV))
    return (v,) + xs


def econs(k, v, xs):
    if anyz(k, v, xs):
        return LE.econs(lift(k, Val), lift(v, Val), lift(xs, LE))
    return ((k, v),) + xs


def _mk(tag, ctor, *sorts):
    def f(*xs):
        if anyz(*xs):
            return ctor(*[lift(x, s) for x, s in zip(xs, sorts)])
        return (tag,) + xs
    return f


VNone = ('N',)
vbool = _mk('B', Val.VBool, Bool)
vint = _mk('I', Val.VInt, Int)
vfloat = _mk('F', Val.VFloat, Fl)
vstr = _mk('S', Val.VStr, Str)
vbytes = _mk('Y', Val.VBytes, Str)
vseq = _mk('Q', Val.VSeq, Int, LV)
vmap = _mk('M', Val.VMap, Int, LE)
vconst = _mk('C', Val.VConst, Int)


def _tst(tag, z):
    def f(x):
        return z(x) if isz(x) else x[0] == tag
    return f


isN = _tst('N', Val.is_VNone)
isB = _tst('B', Val.is_VBool)
isI = _tst('I', Val.is_VInt)
isF = _tst('F', Val.is_VFloat)
isS = _tst('S', Val.is_VStr)
isY = _tst('Y', Val.is_VBytes)
isQ = _tst('Q', Val.is_VSeq)
isM = _tst('M', Val.is_VMap)
isC = _tst('C', Val.is_VConst)

_DEF = {'B': False, 'I': 0, 'F': 0.0, 'S': (), 'Y': (), 'C': 0}


def _sel(tag, z, ix=1, default=None):
    def f(x):
        if isz(x):
            r = z3.simplify(x) if False else x
            if z3.is_app(r) and r.num_args() and r.decl().name() == _CT.get(tag):
                return r.arg(ix - 1)
            return z(x)
        if x[0] != tag:
            return default
        return x[ix]
    return f


_CT = {'B': 'VBool', 'I': 'VInt', 'F': 'VFloat', 'S': 'VStr', 'Y': 'VBytes', 'Q': 'VSeq', 'M': 'VMap', 'C': 'VConst'}
ofB = _sel('B', Val.vb, 1, False)
ofI = _sel('I', Val.vi, 1, 0)
ofF = _sel('F', Val.vf, 1, 0.0)
ofS = _sel('S', Val.vs, 1, ())
ofY = _sel('Y', Val.vy, 1, ())
ofQ = _sel('Q', Val.qi, 2, ())
kindQ = _sel('Q', Val.qk, 1, 0)
ofM = _sel('M', Val.me, 2, ())
kindM = _sel('M', Val.mk, 1, 0)
ofC = _sel('C', Val.vc, 1, 0)


def _dest(cname, z, nth, conc):
    def f(x):
        if isz(x):
            if z3.is_app(x) and x.decl().name() == cname:
                return x.arg(nth)
            return z(x)
        return conc(x)
    return f


sh = _dest('scons', Str.sh, 0, lambda x: x[0] if x else 0)
stl = _dest('scons', Str.stl, 1, lambda x: x[1:])
lh = _dest('lcons', LV.lh, 0, lambda x: x[0] if x else VNone)
lt = _dest('lcons', LV.lt, 1, lambda x: x[1:])
ekh = _dest('econs', LE.ek, 0, lambda x: x[0][0] if x else VNone)
evh = _dest('econs', LE.ev, 1, lambda x: x[0][1] if x else VNone)
etl = _dest('econs', LE.et, 2, lambda x: x[1:])


def empty(x):
    """Is a Str / LV / LE empty."""
    if isz(x):
        s = x.sort()
        if z3.is_app(x):
            n = x.decl().name()
            if n in ('snil', 'lnil', 'enil'):
                return True
            if n in ('scons', 'lcons', 'econs'):
                return False
        return {'Str': Str.is_snil, 'LV': LV.is_lnil, 'LE': LE.is_enil}[s.name()](x)
    return len(x) == 0


_fresh_ctr = itertools.count()


def fresh(sort, name='v'):
    return z3.Const(f'{name}!{next(_fresh_ctr)}', sort)


# ---------------------------------------------------- spec functions
NIL = {Str: Str.snil, LV: LV.lnil, LE: LE.enil}


def _consargs(sort):
    if sort == Str:
        return [Int, Str]
    if sort == LV:
        return [Val, LV]
    if sort == LE:
        return [Val, Val, LE]


def _conscon(sort):
    return {'Str': Str.scons, 'LV': LV.lcons, 'LE': LE.econs}[sort.name()]


class Fact:
    """A named, quantified formula given to the solver."""

    def __init__(self, name, formula, kind, uses=()):
        self.name, self.formula, self.kind, self.uses = name, formula, kind, tuple(uses)


REGISTRY = {}       # spec function name -> Rec/Unint
LEMMAS = {}         # lemma name -> Lemma


class Rec:
    """A recursive specification function defined by cases on a list argument.

    nil(*others) and cons(*parts, *others) are dual mode Python functions."""

    kind = 'definition'

    def __init__(self, name, sorts, out, nil, cons, on=0):
        self.name, self.sorts, self.out, self.on = name, list(sorts), out, on
        self.nil, self.cons = nil, cons
        self.decl = z3.Function(name, *self.sorts, out)
        REGISTRY[name] = self
        self._ax = None

    def __call__(self, *args):
        if anyz(*args):
            return self.decl(*[lift(a, s) for a, s in zip(args, self.sorts)])
        a = args[self.on]
        others = args[:self.on] + args[self.on + 1:]
        if not a:
            return _force(self.nil(*others))
        h = a[0]
        parts = tuple(h) if self.sorts[self.on] == LE else (h,)
        return _force(self.cons(*parts, a[1:], *others))

    def axioms(self):
        if self._ax is None:
            so = self.sorts[self.on]
            others = [z3.Const(f'o{i}_{self.name}', s) for i, s in enumerate(self.sorts) if i != self.on]
            parts = [z3.Const(f'p{i}_{self.name}', s) for i, s in enumerate(_consargs(so))]

            def mk(x):
                o = list(others)
                o.insert(self.on, x)
                return o
            l1 = self.decl(*mk(NIL[so]))
            r1 = lift(_force(self.nil(*others)), self.out)
            l2 = self.decl(*mk(_conscon(so)(*parts)))
            r2 = lift(_force(self.cons(*parts, *others)), self.out)
            f1 = z3.ForAll(others, l1 == r1, patterns=[l1]) if others else l1 == r1
            f2 = z3.ForAll(parts + others, l2 == r2, patterns=[l2])
            self._ax = [Fact(f'{self.name}.nil', f1, 'definition'), Fact(f'{self.name}.cons', f2, 'definition')]
        return self._ax


def _force(x):
    while callable(x) and not isz(x):
        x = x()
    return x


class Def:
    """Non recursive specification function kept opaque for the solver except
    through its single defining axiom (triggered on the application)."""
    kind = 'definition'

    def __init__(self, name, sorts, out, body):
        self.name, self.sorts, self.out, self.body = name, list(sorts), out, body
        self.decl = z3.Function(name, *self.sorts, out)
        REGISTRY[name] = self
        self._ax = None

    def __call__(self, *args):
        if anyz(*args):
            return self.decl(*[lift(a, s) for a, s in zip(args, self.sorts)])
        return _force(self.body(*args))

    def axioms(self):
        if self._ax is None:
            vs = [z3.Const(f'd{i}_{self.name}', s) for i, s in enumerate(self.sorts)]
            l = self.decl(*vs)
            self._ax = [Fact(f'{self.name}.def', z3.ForAll(vs, l == lift(_force(self.body(*vs)), self.out), patterns=[l]), 'definition')]
        return self._ax


class Unint:
    """An uninterpreted function (an assumed model of something external); its
    facts are assumptions and are listed as such."""
    kind = 'uninterpreted'
    used = set()            # names of those that formulas were made of

    def __init__(self, name, sorts, out, py=None, facts=None, doc='', shadow=False):
        self.name, self.sorts, self.out, self.py = name, list(sorts), out, py
        self.decl = z3.Function(name, *self.sorts, out) if sorts else z3.Const(name, out)
        self._facts, self.doc = facts, doc
        REGISTRY[name] = self
        self._ax = None
        self.assumed = not shadow

    def __call__(self, *args):
        if not args and not self.sorts:
            Unint.used.add(self.name)
            return self.decl
        if anyz(*args) or self.py is None:
            Unint.used.add(self.name)
            return self.decl(*[lift(a, s) for a, s in zip(args, self.sorts)])
        return self.py(*args)

    def axioms(self):
        if self._ax is None:
            self._ax = []
            if self._facts:
                for i, (n, f) in enumerate(self._facts(self)):
                    self._ax.append(Fact(f'{self.name}.{n}', f, 'assumption'))
        return self._ax


class Lemma:
    """forall vars. hyp => concl; proved by the back end, optionally by
    structural induction on the variable `on`."""

    def __init__(self, name, vars, body, on=None, patterns=None, uses=(), hints=None, cases=None, strong=None, by=None):
        self.by = by                    # function(*terms) -> [(lemma, args)]: the instances the proof needs (no others are given)
        self.name = name
        self.vars = vars                # list of (name, sort)
        self.body = body                # function(*terms) -> Bool term
        self.on, self.patterns, self.uses = on, patterns, tuple(uses)
        self.hints = hints              # function(*terms) -> list of terms to mention
        self.cases = cases              # extra destruct hints: function(*terms)->list of Bool splits
        self.ih_patterns = strong
        assert name not in LEMMAS, name
        LEMMAS[name] = self

    def consts(self, suffix=''):
        return [z3.Const(f'{n}{suffix}', s) for n, s in self.vars]

    def formula(self):
        vs = self.consts('_q')
        body = lift(self.body(*vs), Bool)
        if self.patterns is None:
            return z3.ForAll(vs, body)
        pats = self.patterns(*vs)
        pats = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats]
        return z3.ForAll(vs, body, patterns=pats)

    def fact(self):
        return Fact(self.name, self.formula(), 'lemma', self.uses)

    def obligations(self):
        """[(name, hyps, goal)]"""
        vs = self.consts('_k')
        names = [n for n, _ in self.vars]
        out = []
        hint = []
        if self.on is None:
            goals = lift(self.body(*vs), Bool)
            hint = self.hints(*vs) if self.hints else []
            inst = []
            for n, args in (self.by(*vs) if self.by else []):
                b = lift(LEMMAS[n].body(*[lift(a, so) for a, (_, so) in zip(args, LEMMAS[n].vars)]), Bool)
                inst.append(b)
            out.append((f'lemma {self.name}', inst + _hints(hint), goals))
            return out
        i = names.index(self.on)
        so = self.vars[i][1]
        base = list(vs)
        base[i] = NIL[so]
        out.append((f'lemma {self.name} [base]', _hints(self.hints(*base) if self.hints else []), lift(self.body(*base), Bool)))
        parts = [z3.Const(f'{self.on}_p{j}', s) for j, s in enumerate(_consargs(so))]
        step = list(vs)
        step[i] = _conscon(so)(*parts)
        oth = [z3.Const(f'{n}_ih', s) for n, s in self.vars]
        ih = list(oth)
        ih[i] = parts[-1]
        qv = [o for j, o in enumerate(oth) if j != i]
        ihb = lift(self.body(*ih), Bool)
        if qv:
            if self.patterns is not None:
                pats = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in (self.ih_patterns or self.patterns)(*ih)]
                ihf = z3.ForAll(qv, ihb, patterns=pats)
            else:
                ihf = z3.ForAll(qv, ihb)
        else:
            ihf = ihb
        out.append((f'lemma {self.name} [step]', [ihf] + _hints(self.hints(*step) if self.hints else []), lift(self.body(*step), Bool)))
        return out


def _hints(ts):
    """Make the solver mention terms: t == t is simplified away, so bind."""
    out = []
    for t in ts:
        if isinstance(t, z3.ExprRef) and t.sort() == Bool and not z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED):
            out.append(z3.Or(t, z3.Not(t)))
        else:
            c = fresh(t.sort(), 'hint')
            out.append(c == t)
    return out


# ------------------------------------------------------ closure of facts
def _decls_in(f, acc, seen):
    st = [f]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
            for i in range(e.num_patterns()):
                st.append(e.pattern(i))
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d.name())
            st.extend(e.children())


_decl_cache = {}


def decls_of(fact):
    k = fact.name
    if k not in _decl_cache:
        acc = set()
        _decls_in(fact.formula, acc, set())
        _decl_cache[k] = acc
    return _decl_cache[k]


def relevant_facts(formulas, lemmas):
    """Definitions of all specification functions reachable from the formulas
    and the listed lemmas (lemma names)."""
    acc, seen = set(), set()
    for f in formulas:
        if isz(f):
            _decls_in(f, acc, seen)
    lem = [LEMMAS[n].fact() if isinstance(n, str) else n for n in lemmas]
    out, used = [], set()
    # a lemma is relevant when one of its patterns can match: take all that
    # share a declaration
    changed = True
    todo = list(lem)
    names = set(acc)
    done_defs = set()
    while changed:
        changed = False
        for n in list(names):
            if n in REGISTRY and n not in done_defs:
                done_defs.add(n)
                for f in REGISTRY[n].axioms():
                    out.append(f)
                    d = decls_of(f)
                    if not d <= names:
                        names |= d
                        changed = True
                changed = True
        for f in list(todo):
            d = decls_of(f)
            if d & names or not d:
                todo.remove(f)
                out.append(f)
                names |= d
                changed = True
    return out


# ------------------------------------------------------------- prover
@dataclasses.dataclass
class Result:
    name: str
    status: str          # proved | failed | unknown
    backend: str
    time: float
    reason: str = ''
    model: object = None
    facts: tuple = ()


class Prover:
    def __init__(self, timeout_ms=8000, cvc5=True, seed=1):
        self.timeout_ms, self.use_cvc5, self.seed = timeout_ms, cvc5, seed
        self.n_queries = 0
        self.time = 0.0
        self.feas_rlimit = 20000

    def _solver(self, timeout):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('smt.random_seed', self.seed)
        s.set('timeout', timeout)
        s.set('smt.ematching', True)
        s.set('smt.qi.max_multi_patterns', 1000)
        return s

    def check(self, name, hyps, goal, lemmas=(), timeout=None, extra_facts=()):
        t0 = time.time()
        goal = lift(goal, Bool)
        hyps = [lift(h, Bool) for h in hyps if not (isinstance(h, bool) and h)]
        if z3.is_true(z3.simplify(goal)):
            return Result(name, 'proved', 'simplifier', time.time() - t0)
        facts = relevant_facts(hyps + [goal], lemmas)
        s = self._solver(timeout or self.timeout_ms)
        for f in facts:
            s.add(f.formula)
        for f in extra_facts:
            s.add(f)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        self.n_queries += 1
        r = s.check()
        dt = time.time() - t0
        self.time += dt
        fn = tuple(f.name for f in facts if f.kind != 'definition')
        if r == z3.unsat:
            return Result(name, 'proved', 'z3', dt, facts=fn)
        reason = f'z3 {z3.get_version_string()}: {r}' + (f' ({s.reason_unknown()})' if r == z3.unknown else '')
        model = None
        try:
            model = s.model()
        except z3.Z3Exception:
            pass
        if r == z3.unknown and z3.is_and(goal):       # one conjunct at a time
            tt, back = dt, set()
            for g in _conjuncts(goal):
                x = self.check(name, hyps, g, lemmas, timeout, extra_facts)
                tt += x.time
                back.add(x.backend)
                if x.status != 'proved':
                    x.time = tt
                    x.reason += f'; conjunct {str(z3.simplify(g))[:300]}'
                    return x
            return Result(name, 'proved', 'cvc5' if 'cvc5' in back else 'z3', tt, facts=fn)
        if self.use_cvc5:
            t1 = time.time()
            r2 = self._cvc5(s, timeout or self.timeout_ms)
            dt2 = time.time() - t1
            self.time += dt2
            if r2 == 'unsat':
                return Result(name, 'proved', 'cvc5', dt + dt2, facts=fn)
            reason += f'; cvc5: {r2}'
            dt += dt2
        return Result(name, 'failed', 'z3+cvc5' if self.use_cvc5 else 'z3', dt, reason, model, fn)

    def _cvc5(self, s, timeout):
        txt = _for_cvc5(s.to_smt2())
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fp:
            fp.write(txt)
        try:
            p = subprocess.run(
                ['cvc5', f'--tlimit={timeout}', '--no-cbqi', fp.name],
                capture_output=True, text=True, timeout=timeout / 1000 + 5,
            )
            out = (p.stdout + p.stderr).strip().split('\n')[0]
            return out
        except subprocess.TimeoutExpired:
            return 'timeout'
        except OSError as e:
            return f'error {e}'
        finally:
            os.unlink(fp.name)

    def feasible(self, hyps, lemmas=()):
        """False only if the hypotheses are contradictory.  First without any
        quantified fact (spec functions uninterpreted), then, briefly, with."""
        hyps = [h for h in hyps if not (isinstance(h, bool) and h)]
        if any(isinstance(h, bool) and not h for h in hyps):
            return False
        hyps = [lift(h, Bool) for h in hyps]
        self.n_queries += 1
        t0 = time.time()
        try:
            s = self._solver(500)
            for h in hyps:
                s.add(h)
            if s.check() == z3.unsat:
                return False
            facts = relevant_facts(hyps, lemmas)
            if not facts:
                return True
            s = self._solver(4294967295)
            s.set('rlimit', self.feas_rlimit * (3 if lemmas else 1))     # deterministic, unlike a time limit
            for f in facts:
                s.add(f.formula)
            for h in hyps:
                s.add(h)
            return s.check() != z3.unsat
        finally:
            self.time += time.time() - t0


def _conjuncts(g):
    return [x for y in g.children() for x in _conjuncts(y)] if z3.is_and(g) else [g]


_PRELUDE = '''(set-logic ALL)
(declare-datatypes ((Str 0)) (((snil) (scons (sh Int) (stl Str)))))
(declare-datatypes ((Fl 0)) (((FNaN) (FInf (fneg Bool)) (FFin (fval Real)))))
(declare-datatypes ((Val 0) (LV 0) (LE 0)) (
 ((VNone) (VBool (vb Bool)) (VInt (vi Int)) (VFloat (vf Fl)) (VStr (vs Str)) (VBytes (vy Str)) (VSeq (qk Int) (qi LV)) (VMap (mk Int) (me LE)) (VConst (vc Int)))
 ((lnil) (lcons (lh Val) (lt LV)))
 ((enil) (econs (ek Val) (ev Val) (et LE)))))
'''


def _for_cvc5(txt):
    """Replace the datatype declarations printed by z3 (wrong order)."""
    out, i = [], 0
    while True:
        j = txt.find('(declare-datatypes', i)
        if j < 0:
            out.append(txt[i:])
            break
        out.append(txt[i:j])
        depth, k = 0, j
        while True:
            if txt[k] == '(':
                depth += 1
            elif txt[k] == ')':
                depth -= 1
                if depth == 0:
                    break
            k += 1
        i = k + 1
    body = ''.join(out)
    return _PRELUDE + body


# -------------------------------------------------------- basic library
app = Rec('app', [Str, Str], Str, lambda b: b, lambda c, r, b: scons(c, app(r, b)))
slen = Rec('slen', [Str], Int, lambda: 0, lambda c, r: 1 + slen(r))
slast = Rec('slast', [Str], Int, lambda: -1, lambda c, r: Ite(empty(r), c, lambda: slast(r)))
sinit = Rec('sinit', [Str], Str, lambda: (), lambda c, r: Ite(empty(r), (), lambda: scons(c, sinit(r))))
lapp = Rec('lapp', [LV, LV], LV, lambda b: b, lambda c, r, b: lcons(c, lapp(r, b)))
llen = Rec('llen', [LV], Int, lambda: 0, lambda c, r: 1 + llen(r))
llast = Rec('llast', [LV], Val, lambda: VNone, lambda c, r: Ite(empty(r), c, lambda: llast(r)))
linit = Rec('linit', [LV], LV, lambda: (), lambda c, r: Ite(empty(r), (), lambda: lcons(c, linit(r))))


def snoc(s, c):
    return app(s, scons(c, ()))


def lsnoc(xs, v):
    return lapp(xs, lcons(v, ()))


Lemma('app_nil', [('a', Str)], lambda a: app(a, Str.snil) == a, on='a', patterns=lambda a: [app(a, Str.snil)])
Lemma('app_assoc', [('a', Str), ('b', Str), ('c', Str)],
      lambda a, b, c: app(app(a, b), c) == app(a, app(b, c)), on='a',
      patterns=lambda a, b, c: [app(app(a, b), c)])
Lemma('lapp_nil', [('a', LV)], lambda a: lapp(a, LV.lnil) == a, on='a', patterns=lambda a: [lapp(a, LV.lnil)])
Lemma('lapp_assoc', [('a', LV), ('b', LV), ('c', LV)],
      lambda a, b, c: lapp(lapp(a, b), c) == lapp(a, lapp(b, c)), on='a',
      patterns=lambda a, b, c: [lapp(lapp(a, b), c)])
Lemma('slen_nonneg', [('a', Str)], lambda a: slen(a) >= 0, on='a', patterns=lambda a: [slen(a)])
Lemma('llen_nonneg', [('a', LV)], lambda a: llen(a) >= 0, on='a', patterns=lambda a: [llen(a)])
Lemma('llen_app', [('a', LV), ('b', LV)], lambda a, b: llen(lapp(a, b)) == llen(a) + llen(b), on='a',
      patterns=lambda a, b: [llen(lapp(a, b))])
Lemma('slen_app', [('a', Str), ('b', Str)], lambda a, b: slen(app(a, b)) == slen(a) + slen(b), on='a',
      patterns=lambda a, b: [slen(app(a, b))])
Lemma('init_last', [('a', Str)], lambda a: Implies(Not(empty(a)), a == app(sinit(a), scons(slast(a), ()))), on='a',
      patterns=lambda a: [sinit(a)])
Lemma('linit_last', [('a', LV)], lambda a: Implies(Not(empty(a)), a == lapp(linit(a), lcons(llast(a), ()))), on='a',
      patterns=lambda a: [linit(a)])
Lemma('slast_app', [('a', Str), ('c', Int)], lambda a, c: slast(app(a, scons(c, ()))) == c, on='a',
      patterns=lambda a, c: [app(a, scons(c, ()))], uses=())
Lemma('sinit_app', [('a', Str), ('c', Int)], lambda a, c: sinit(app(a, scons(c, ()))) == a, on='a',
      patterns=lambda a, c: [sinit(app(a, scons(c, ())))], uses=())
Lemma('app_empty', [('a', Str), ('b', Str)], lambda a, b: (app(a, b) == Str.snil) == z3.And(a == Str.snil, b == Str.snil), on='a',
      patterns=lambda a, b: [app(a, b)])
Lemma('lapp_empty', [('a', LV), ('b', LV)], lambda a, b: (lapp(a, b) == LV.lnil) == z3.And(a == LV.lnil, b == LV.lnil), on='a',
      patterns=lambda a, b: [lapp(a, b)])
LEMMAS['slast_app'].uses = ('app_empty',)
LEMMAS['sinit_app'].uses = ('app_empty',)


def prove_lemma(prover, name, done=None, results=None):
    """Prove a lemma and, first, everything it uses. Returns list of Results."""
    done = set() if done is None else done
    results = [] if results is None else results
    if name in done:
        return results
    lem = LEMMAS[name]
    done.add(name)
    for u in lem.uses:
        prove_lemma(prover, u, done, results)
    for (n, hyps, goal) in lem.obligations():
        results.append(prover.check(n, hyps, goal, lemmas=() if lem.by else lem.uses))
    return results
