"""Specification library: sequences, dictionaries (ordered association lists,
the exact CPython model), strings."""
import z3

from .logic import *  # noqa
from .logic import Str, LV, LE, Val, Int, Bool, Rec, Def, Lemma, Unint, Ite, Eq, And, Or, Not, Implies, Ne
from . import logic as L

# ---- lists of values
lnth = Rec('lnth', [LV, Int], Val, lambda i: VNone, lambda h, t, i: Ite(Eq(i, 0), h, lambda: lnth(t, i - 1)))
lupd = Rec('lupd', [LV, Int, Val], LV, lambda i, v: (), lambda h, t, i, v: Ite(Eq(i, 0), lambda: lcons(v, t), lambda: lcons(h, lupd(t, i - 1, v))))
ldel = Rec('ldel', [LV, Int], LV, lambda i: (), lambda h, t, i: Ite(Eq(i, 0), t, lambda: lcons(h, ldel(t, i - 1))))
lhas = Rec('lhas', [LV, Val], Bool, lambda v: False, lambda h, t, v: Or(Eq(h, v), lhas(t, v)))
lrev = Rec('lrev', [LV, LV], LV, lambda acc: acc, lambda h, t, acc: lrev(t, lcons(h, acc)))
ldrop = Rec('ldrop', [LV, Int], LV, lambda i: (), lambda h, t, i: Ite(i <= 0, lambda: lcons(h, t), lambda: ldrop(t, i - 1)))
snth = Rec('snth', [Str, Int], Int, lambda i: 0, lambda h, t, i: Ite(Eq(i, 0), h, lambda: snth(t, i - 1)))

# ---- dictionaries
ehas = Rec('ehas', [LE, Val], Bool, lambda k: False, lambda k0, v0, t, k: Or(Eq(k0, k), ehas(t, k)))
eget = Rec('eget', [LE, Val], Val, lambda k: VNone, lambda k0, v0, t, k: Ite(Eq(k0, k), v0, lambda: eget(t, k)))
eset = Rec('eset', [LE, Val, Val], LE, lambda k, v: econs(k, v, ()),
           lambda k0, v0, t, k, v: Ite(Eq(k0, k), lambda: econs(k0, v, t), lambda: econs(k0, v0, eset(t, k, v))))
edel = Rec('edel', [LE, Val], LE, lambda k: (), lambda k0, v0, t, k: Ite(Eq(k0, k), t, lambda: econs(k0, v0, edel(t, k))))
ekeys = Rec('ekeys', [LE], LV, lambda: (), lambda k0, v0, t: lcons(k0, ekeys(t)))
evals = Rec('evals', [LE], LV, lambda: (), lambda k0, v0, t: lcons(v0, evals(t)))
eitems = Rec('eitems', [LE], LV, lambda: (), lambda k0, v0, t: lcons(vseq(TUPLE, lcons(k0, lcons(v0, ()))), eitems(t)))
elen = Rec('elen', [LE], Int, lambda: 0, lambda k0, v0, t: 1 + elen(t))
ewf = Rec('ewf', [LE], Bool, lambda: True, lambda k0, v0, t: And(Not(ehas(t, k0)), ewf(t)))      # distinct keys
eapp = Rec('eapp', [LE, LE], LE, lambda b: b, lambda k0, v0, t, b: econs(k0, v0, eapp(t, b)))

# ---- strings
# all chars of a list of one-or-more strings, concatenated
jcat = Rec('jcat', [LV], Str, lambda: (), lambda h, t: app(ofS(h), jcat(t)))
allstr = Rec('allstr', [LV], Bool, lambda: True, lambda h, t: And(isS(h), allstr(t)))
# sep.join(xs): tail part, every element preceded by sep
jtail = Rec('jtail', [LV, Str], Str, lambda sep: (), lambda h, t, sep: app(sep, app(ofS(h), jtail(t, sep))))
sjoin = Rec('sjoin', [LV, Str], Str, lambda sep: (), lambda h, t, sep: app(ofS(h), jtail(t, sep)))
# list of the characters of a string
chars = Rec('chars', [Str], LV, lambda: (), lambda c, r: lcons(vstr(scons(c, ())), chars(r)))
schar = Rec('schar', [Str, Int], Bool, lambda c: False, lambda h, t, c: Or(Eq(h, c), schar(t, c)))   # c in s
sstrip_l = Rec('sstrip_l', [Str, Int], Str, lambda c: (), lambda h, t, c: Ite(Eq(h, c), lambda: sstrip_l(t, c), lambda: scons(h, t)))


def truthy(v):
    if not isz(v):
        t = v[0]
        if t == 'N':
            return False
        if t in 'BIF':
            return bool(v[1])
        if t in 'SY':
            return len(v[1]) > 0
        if t in 'QM':
            return len(v[2]) > 0
        return True
    return z3.And(
        z3.Not(Val.is_VNone(v)),
        z3.Not(z3.And(Val.is_VBool(v), z3.Not(Val.vb(v)))),
        z3.Not(z3.And(Val.is_VInt(v), Val.vi(v) == 0)),
        z3.Not(z3.And(Val.is_VFloat(v), Val.vf(v) == Fl.FFin(z3.RealVal(0)))),
        z3.Not(z3.And(Val.is_VStr(v), Str.is_snil(Val.vs(v)))),
        z3.Not(z3.And(Val.is_VBytes(v), Str.is_snil(Val.vy(v)))),
        z3.Not(z3.And(Val.is_VSeq(v), LV.is_lnil(Val.qi(v)))),
        z3.Not(z3.And(Val.is_VMap(v), LE.is_enil(Val.me(v)))),
    )


ltruthy = Rec('ltruthy', [LV], LV, lambda: (), lambda h, t: Ite(truthy(h), lambda: lcons(h, ltruthy(t)), lambda: ltruthy(t)))

Lemma('jcat_app', [('a', LV), ('b', LV)], lambda a, b: jcat(lapp(a, b)) == app(jcat(a), jcat(b)), on='a',
      patterns=lambda a, b: [jcat(lapp(a, b))], uses=('app_assoc',))
Lemma('allstr_app', [('a', LV), ('b', LV)], lambda a, b: allstr(lapp(a, b)) == z3.And(allstr(a), allstr(b)), on='a',
      patterns=lambda a, b: [allstr(lapp(a, b))])
Lemma('jtail_nosep', [('a', LV)], lambda a: jtail(a, Str.snil) == jcat(a), on='a', patterns=lambda a: [jtail(a, Str.snil)])
Lemma('sjoin_nosep', [('a', LV)], lambda a: sjoin(a, Str.snil) == jcat(a), on='a', patterns=lambda a: [sjoin(a, Str.snil)], uses=('jtail_nosep',))
Lemma('jcat_chars', [('s', Str)], lambda s: z3.And(jcat(chars(s)) == s, allstr(chars(s))), on='s', patterns=lambda s: [chars(s)])
Lemma('lupd_len', [('a', LV), ('i', Int), ('v', Val)], lambda a, i, v: llen(lupd(a, i, v)) == llen(a), on='a', patterns=lambda a, i, v: [lupd(a, i, v)])
Lemma('lnth_upd', [('a', LV), ('i', Int), ('v', Val), ('j', Int)],
      lambda a, i, v, j: Implies(And(0 <= i, i < llen(a)), lnth(lupd(a, i, v), j) == Ite(i == j, v, lnth(a, j))), on='a',
      patterns=lambda a, i, v, j: [lnth(lupd(a, i, v), j)], uses=('llen_nonneg',))
Lemma('lnth_appl', [('a', LV), ('b', LV), ('i', Int)],
      lambda a, b, i: Implies(And(0 <= i, i < llen(a)), lnth(lapp(a, b), i) == lnth(a, i)), on='a',
      patterns=lambda a, b, i: [lnth(lapp(a, b), i)], uses=('llen_nonneg',))
Lemma('lnth_appr', [('a', LV), ('b', LV), ('i', Int)],
      lambda a, b, i: Implies(i >= llen(a), lnth(lapp(a, b), i) == lnth(b, i - llen(a))), on='a',
      patterns=lambda a, b, i: [lnth(lapp(a, b), i)], uses=('llen_nonneg',))
Lemma('lupd_append', [('a', LV), ('x', Val), ('v', Val)],
      lambda a, x, v: lupd(lapp(a, lcons(x, ())), llen(a), v) == lapp(a, lcons(v, ())), on='a',
      patterns=lambda a, x, v: [lupd(lapp(a, lcons(x, ())), llen(a), v)], uses=('llen_nonneg',))
Lemma('lnth_snoc', [('a', LV), ('x', Val)], lambda a, x: lnth(lapp(a, lcons(x, ())), llen(a)) == x, on='a',
      patterns=lambda a, x: [lapp(a, lcons(x, ()))], uses=('llen_nonneg',))
Lemma('eget_set', [('e', LE), ('k', Val), ('v', Val), ('j', Val)],
      lambda e, k, v, j: eget(eset(e, k, v), j) == Ite(k == j, v, eget(e, j)), on='e',
      patterns=lambda e, k, v, j: [eget(eset(e, k, v), j)])
Lemma('ehas_set', [('e', LE), ('k', Val), ('v', Val), ('j', Val)],
      lambda e, k, v, j: ehas(eset(e, k, v), j) == z3.Or(k == j, ehas(e, j)), on='e',
      patterns=lambda e, k, v, j: [ehas(eset(e, k, v), j)])
Lemma('eset_set', [('e', LE), ('k', Val), ('v', Val), ('w', Val)],
      lambda e, k, v, w: eset(eset(e, k, v), k, w) == eset(e, k, w), on='e',
      patterns=lambda e, k, v, w: [eset(eset(e, k, v), k, w)])
Lemma('eset_nonempty', [('e', LE), ('k', Val), ('v', Val)], lambda e, k, v: eset(e, k, v) != LE.enil, on='e', patterns=lambda e, k, v: [eset(e, k, v)])
Lemma('ewf_set', [('e', LE), ('k', Val), ('v', Val)], lambda e, k, v: Implies(ewf(e), ewf(eset(e, k, v))), on='e',
      patterns=lambda e, k, v: [ewf(eset(e, k, v))], uses=('ehas_set',))
Lemma('ehas_del', [('e', LE), ('k', Val), ('j', Val)],
      lambda e, k, j: Implies(ewf(e), ehas(edel(e, k), j) == z3.And(k != j, ehas(e, j))), on='e',
      patterns=lambda e, k, j: [ehas(edel(e, k), j)])
Lemma('eget_del', [('e', LE), ('k', Val), ('j', Val)],
      lambda e, k, j: Implies(And(ewf(e), k != j), eget(edel(e, k), j) == eget(e, j)), on='e',
      patterns=lambda e, k, j: [eget(edel(e, k), j)])
Lemma('ewf_del', [('e', LE), ('k', Val)], lambda e, k: Implies(ewf(e), ewf(edel(e, k))), on='e',
      patterns=lambda e, k: [ewf(edel(e, k))], uses=('ehas_del',))
Lemma('edel_none', [('e', LE), ('k', Val)], lambda e, k: Implies(Not(ehas(e, k)), edel(e, k) == e), on='e', patterns=lambda e, k: [edel(e, k)])
Lemma('lrev_app', [('a', LV), ('b', LV)], lambda a, b: lrev(a, b) == lapp(lrev(a, LV.lnil), b), on='a', patterns=lambda a, b: [lrev(a, b)], uses=('lapp_assoc',))
del L.LEMMAS['lrev_app']
LIST_LEMMAS = ('app_nil', 'app_assoc', 'lapp_nil', 'lapp_assoc')

# ---- python equality, str(), membership of substrings
eupdate = Rec('eupdate', [LE, LE], LE, lambda a: a, lambda k, v, t, a: eupdate(eset(a, k, v), t), on=1)
sprefix = Rec('sprefix', [Str, Str], Bool, lambda s: True,     # first argument is a prefix of the second
              lambda c, r, s: False if not isz(s) and not s else And(Not(empty(s)), Eq(sh(s), c), sprefix(r, stl(s))))


def _pyeq(a, b):
    num = lambda v: v[0] in 'BIF'
    if num(a) and num(b):
        return a[1] == b[1]
    if a[0] != b[0]:
        return False
    if a[0] == 'Q':
        return (a[1] == b[1] or LIST not in (a[1], b[1])) and len(a[2]) == len(b[2]) and all(_pyeq(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == 'M':
        if len(a[2]) != len(b[2]):
            return False
        for k, v in a[2]:
            for k2, v2 in b[2]:
                if _pyeq(k, k2):
                    if not _pyeq(v, v2):
                        return False
                    break
            else:
                return False
        return True
    return a == b


def _pyeq_facts(f):
    a, b = z3.Const('a_pe', Val), z3.Const('b_pe', Val)
    scal = lambda v: z3.Or(Val.is_VNone(v), Val.is_VStr(v), Val.is_VBytes(v), Val.is_VConst(v))
    yield 'scalar', z3.ForAll([a, b], z3.Implies(z3.Or(scal(a), scal(b)), f(a, b) == (a == b)), patterns=[f(a, b)])
    yield 'number', z3.ForAll([a, b], z3.Implies(z3.And(_isnum(a), _isnum(b)), f(a, b) == num_eq(a, b)), patterns=[f(a, b)])
    yield 'symmetric', z3.ForAll([a, b], f(a, b) == f(b, a), patterns=[f(a, b)])


py_eq = Unint('py_eq', [Val, Val], Bool, py=_pyeq, facts=_pyeq_facts, doc='== on two values of unknown type, taken to be symmetric; equals identity of representation when one side is None, str or bytes')


def _isnum(v):
    return Or(isB(v), isI(v), isF(v))


def _numval(v):
    return z3.If(Val.is_VBool(v), z3.If(Val.vb(v), z3.RealVal(1), z3.RealVal(0)), z3.If(Val.is_VInt(v), z3.ToReal(Val.vi(v)), Fl.fval(Val.vf(v))))


def num_eq(a, b):
    """== where at least one side is a bool / int / float."""
    if not anyz(a, b):
        return _pyeq(a, b)
    a, b = lift(a, Val), lift(b, Val)
    fin = lambda v: z3.Or(Val.is_VBool(v), Val.is_VInt(v), z3.And(Val.is_VFloat(v), Fl.is_FFin(Val.vf(v))))
    inf = lambda v: z3.And(Val.is_VFloat(v), Fl.is_FInf(Val.vf(v)))
    return z3.simplify(z3.Or(z3.And(fin(a), fin(b), _numval(a) == _numval(b)),
                 z3.And(inf(a), inf(b), a == b)))


def num_lt(a, b):
    """< of two bools / ints / floats."""
    if not anyz(a, b):
        return unval(a) < unval(b)
    a, b = lift(a, Val), lift(b, Val)
    fin = lambda v: z3.Or(Val.is_VBool(v), Val.is_VInt(v), z3.And(Val.is_VFloat(v), Fl.is_FFin(Val.vf(v))))
    inf = lambda v, neg: z3.And(Val.is_VFloat(v), Fl.is_FInf(Val.vf(v)), Fl.fneg(Val.vf(v)) == neg)
    return z3.simplify(z3.Or(z3.And(fin(a), fin(b), _numval(a) < _numval(b)), z3.And(fin(a), inf(b, False)), z3.And(inf(a, True), fin(b)), z3.And(inf(a, True), inf(b, False))))


def num_cmp(op, a, b):
    return {'Lt': lambda: num_lt(a, b), 'Gt': lambda: num_lt(b, a), 'LtE': lambda: Or(num_lt(a, b), num_eq(a, b)), 'GtE': lambda: Or(num_lt(b, a), num_eq(a, b))}[op]()


def _pystr(v):
    return L.S(str(unval(v)))


py_str = Unint('py_str', [Val], Str, py=_pystr,
               facts=lambda f: [('str', (lambda s: z3.ForAll([s], f(Val.VStr(s)) == s, patterns=[f(Val.VStr(s))]))(z3.Const('s_ps', Str))),
                                ('int', (lambda i: z3.ForAll([i], f(Val.VInt(i)) != Str.snil, patterns=[f(Val.VInt(i))]))(z3.Const('i_ps', Int)))],
               doc='str(value)')


def _substr(x, c):
    return L.unS(x) in L.unS(c)


def _substr_facts(f):
    s, c = z3.Const('s_ss', Str), z3.Const('c_ss', Int)
    one = Str.scons(c, Str.snil)
    yield 'one', z3.ForAll([s, c], f(one, s) == schar(s, c), patterns=[f(one, s)])
    yield 'empty', z3.ForAll([s], f(Str.snil, s), patterns=[f(Str.snil, s)])
    x = z3.Const('x_ss', Str)
    yield 'single', z3.ForAll([x, s], z3.Implies(z3.And(x != Str.snil, stl(x) == Str.snil), f(x, s) == schar(s, sh(x))), patterns=[f(x, s)])


substr = Unint('substr', [Str, Str], Bool, py=_substr, facts=_substr_facts, doc='x in s for strings; exact for one-character x, uninterpreted otherwise')


# ---- conversion between Python objects and concrete Val data
class NotRepresentable(Exception):
    pass


_const_by_id = {}
_const_objs = {}


def toval(o, consts=None):
    if o is None:
        return ('N',)
    if o is True or o is False:
        return ('B', o)
    t = type(o)
    if t is int:
        return ('I', o)
    if t is float:
        return ('F', o)
    if t is str:
        return ('S', L.S(o))
    if t is bytes:
        return ('Y', tuple(o))
    if t is list:
        return ('Q', LIST, tuple(toval(x, consts) for x in o))
    if isinstance(o, tuple):
        return ('Q', TUPLE, tuple(toval(x, consts) for x in o))
    if t is dict:
        return ('M', DICT, tuple((toval(k, consts), toval(v, consts)) for k, v in o.items()))
    return ('C', const_of(o))


def const_of(o):
    k = id(o)
    if k not in _const_by_id:
        _const_by_id[k] = 1000000 + len(_const_by_id)
        _const_objs[_const_by_id[k]] = o
    return _const_by_id[k]


def unval(v):
    t = v[0]
    if t == 'N':
        return None
    if t in 'BIF':
        return v[1]
    if t == 'S':
        return L.unS(v[1])
    if t == 'Y':
        return bytes(v[1])
    if t == 'Q':
        xs = [unval(x) for x in v[2]]
        return xs if v[1] == LIST else tuple(xs)
    if t == 'M':
        return {unval(k): unval(x) for k, x in v[2]}
    return _const_objs.get(v[1], f'<object {v[1]}>')

def _hash_ok(v):
    try:
        hash(unval(v))
        return True
    except TypeError:
        return False


hashable = Unint('hashable', [Val], Bool, py=_hash_ok, doc='hash(value) does not raise TypeError')
ltake = Rec('ltake', [LV, Int], LV, lambda i: (), lambda h, t, i: Ite(i <= 0, (), lambda: lcons(h, ltake(t, i - 1)), LV))
lins = Rec('lins', [LV, Int, Val], LV, lambda i, v: lcons(v, ()), lambda h, t, i, v: Ite(i <= 0, lambda: lcons(v, lcons(h, t)), lambda: lcons(h, lins(t, i - 1, v)), LV))

# ---- more list functions
lany = Rec('lany', [LV], Bool, lambda: False, lambda h, t: Or(truthy(h), lany(t)))
lall = Rec('lall', [LV], Bool, lambda: True, lambda h, t: And(truthy(h), lall(t)))
erev = Rec('erev', [LE, LE], LE, lambda acc: acc, lambda k, v, t, acc: erev(t, econs(k, v, acc)))
sstrip_r = Rec('sstrip_r', [Str, Int], Str, lambda c: (),
               lambda h, t, c: Ite(And(empty(sstrip_r(t, c)), Eq(h, c)), (), lambda: scons(h, sstrip_r(t, c))))
strip_ws = Unint('strip_ws', [Str], Str, py=lambda s: L.S(L.unS(s).strip()), doc='str.strip()')

# ---- floats (IEEE values as NaN / signed infinity / real; rounding is not modelled)
import math


def fl_finite(f):
    return Fl.is_FFin(f) if isz(f) else math.isfinite(f)


def fl_nan(f):
    return Fl.is_FNaN(f) if isz(f) else f != f


fl_trunc = Unint('fl_trunc', [Fl], Int, py=lambda f: int(f) if math.isfinite(f) else 0, doc='int(float)',
                 facts=lambda f: [('int', (lambda x: z3.ForAll([x], z3.Implies(z3.And(Fl.is_FFin(x), z3.IsInt(Fl.fval(x))), z3.ToReal(f(x)) == Fl.fval(x)), patterns=[f(x)]))(z3.Const('x_ft', Fl)))])
fl_int_ok = Unint('fl_int_ok', [Int], Bool, py=lambda i: _try(lambda: float(i)), doc='float(int) does not overflow')
fl_of_int = Unint('fl_of_int', [Int], Fl, py=lambda i: float(i) if _try(lambda: float(i)) else 0.0, doc='float(int), rounded',
                  facts=lambda f: [('fin', (lambda x: z3.ForAll([x], Fl.is_FFin(f(x)), patterns=[f(x)]))(z3.Const('x_fi', Int)))])


def _try(f):
    try:
        f()
        return True
    except OverflowError:
        return False


def fl_isint(f):
    if isz(f):
        return z3.And(Fl.is_FFin(f), z3.IsInt(Fl.fval(f)))
    return math.isfinite(f) and f == int(f)


# ---- concatenation that unfolds a first argument of known shape (used by the
# engine when it builds terms; equal to app / lapp by their definitions)
def _smart(fn, con, nil, conname, nilname):
    def f(a, b):
        if not anyz(a, b):
            return fn(a, b)
        if isz(b) and z3.is_app(b) and b.decl().name() == nilname:
            b = ()
        if not isz(b) and b == () and conname == 'scons':
            return a
        if not isz(a):
            for c in reversed(a):
                b = con(c, b)
            return b
        parts, t = [], a
        while z3.is_app(t) and t.decl().name() == conname:
            parts.append(t.arg(0))
            t = t.arg(1)
        if z3.is_app(t) and t.decl().name() == nilname:
            for c in reversed(parts):
                b = con(c, b)
            return b
        return fn(a, b)
    return f


sapp = _smart(app, scons, Str.snil, 'scons', 'snil')
slapp = _smart(lapp, lcons, LV.lnil, 'lcons', 'lnil')


# ---- the order in which a set built from this list of elements is iterated
def _sperm_facts(f):
    x, k = z3.Const('x_sp', LV), z3.Const('k_sp', Val)
    yield 'members', z3.ForAll([x, k], lhas(f(x), k) == lhas(x, k), patterns=[lhas(f(x), k)])


def _sperm_py(x):
    out = []
    for v in x:
        if v not in out:
            out.append(v)
    return tuple(out)


sperm = Unint('sperm', [LV], LV, py=_sperm_py, facts=_sperm_facts, doc='iteration order of a set with these elements: unspecified, same members (the concrete evaluation compares results up to dict order)')
Lemma('lhas_app', [('a', LV), ('b', LV), ('k', Val)], lambda a, b, k: lhas(lapp(a, b), k) == z3.Or(lhas(a, k), lhas(b, k)), on='a', patterns=lambda a, b, k: [lhas(lapp(a, b), k)])
Lemma('lhas_ekeys', [('e', LE), ('k', Val)], lambda e, k: lhas(ekeys(e), k) == ehas(e, k), on='e', patterns=lambda e, k: [lhas(ekeys(e), k)])


def keys_of(v):
    """the members iterated by set(v) / list(v)"""
    return Ite(isM(v), lambda: ekeys(ofM(v)), lambda: ofQ(v), LV)


# ---- values whose dictionaries have distinct keys, all the way down (true of every Python value)
def _wfv_py(v):
    return True


def _wfv_facts(f):
    v = z3.Const('v_wf', Val)
    yield 'unfold', z3.ForAll([v], f(v) == z3.And(z3.Implies(isM(v), z3.And(ewf(ofM(v)), wfve(ofM(v)))), z3.Implies(isQ(v), wfvl(ofQ(v)))), patterns=[f(v)])


wfv = Unint('wfv', [Val], Bool, py=_wfv_py, facts=_wfv_facts, doc='recursive definition over the value tree', shadow=True)
wfvl = Rec('wfvl', [LV], Bool, lambda: True, lambda h, t: And(wfv(h), wfvl(t)))
wfve = Rec('wfve', [LE], Bool, lambda: True, lambda k, v, t: And(wfv(k), wfv(v), wfve(t)))
Lemma('wfvl_app', [('a', LV), ('b', LV)], lambda a, b: wfvl(lapp(a, b)) == z3.And(wfvl(a), wfvl(b)), on='a', patterns=lambda a, b: [wfvl(lapp(a, b))])
Lemma('wfve_app', [('a', LE), ('b', LE)], lambda a, b: wfve(eapp(a, b)) == z3.And(wfve(a), wfve(b)), on='a', patterns=lambda a, b: [wfve(eapp(a, b))])
Lemma('ehas_app', [('a', LE), ('b', LE), ('k', Val)], lambda a, b, k: ehas(eapp(a, b), k) == z3.Or(ehas(a, k), ehas(b, k)), on='a', patterns=lambda a, b, k: [ehas(eapp(a, b), k)])
Lemma('eget_mid', [('a', LE), ('k', Val), ('v', Val), ('b', LE)], lambda a, k, v, b: Implies(ewf(eapp(a, econs(k, v, b))), eget(eapp(a, econs(k, v, b)), k) == v), on='a',
      patterns=lambda a, k, v, b: [eapp(a, econs(k, v, b))], uses=('ehas_app',))

lstr = Rec('lstr', [LV], LV, lambda: (), lambda h, t: lcons(vstr(py_str(h)), lstr(t)))       # [str(x) for x in l]
Lemma('allstr_lstr', [('l', LV)], lambda l: allstr(lstr(l)), on='l', patterns=lambda l: [lstr(l)])
Lemma('lstr_id', [('l', LV)], lambda l: Implies(allstr(l), lstr(l) == l), on='l', patterns=lambda l: [lstr(l)])

epairs = Rec('epairs', [LV, LE], LE, lambda acc: acc, lambda h, t, acc: epairs(t, eset(acc, lh(ofQ(h)), lh(lt(ofQ(h))))))      # dict(pairs)
lzip = Rec('lzip', [LV, LV], LV, lambda b: (), lambda h, t, b: Ite(empty(b), (), lambda: lcons(vseq(TUPLE, lcons(h, lcons(lh(b), ()))), lzip(t, lt(b))), LV))
