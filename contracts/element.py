"""Contracts of marsh.element (properties C02 - C06)."""
import pyvc  # noqa
import z3
import marsh
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, Loop
from pyvc.builtin_models import int_ok, int_of
from .path import fields, parseable, nonempty, jf
from .kinds import missing, MISSING_STR
from . import path as P  # noqa

PathError = marsh.errors.PathError
DOT = 46


# ------------------------------------------------- one step along a path
def idx_of(f, n):
    return Ite(int_of(f) < 0, lambda: int_of(f) + n, lambda: int_of(f))


def step_ok(v, f):
    """can field f (a Val holding a string) be followed in v"""
    s = ofS(f)
    return Or(And(isM(v), ehas(ofM(v), f)),
              And(isQ(v), int_ok(s), 0 <= idx_of(s, llen(ofQ(v))), idx_of(s, llen(ofQ(v))) < llen(ofQ(v)))) if isz(v) or isz(f) else _cstep_ok(v, f)


def _cstep_ok(v, f):
    if v[0] == 'M':
        return ehas(v[2], f)
    if v[0] == 'Q':
        s = ofS(f)
        if not int_ok(s):
            return False
        i = idx_of(s, len(v[2]))
        return 0 <= i < len(v[2])
    return False


def step(v, f):
    if isz(v) or isz(f):
        return Ite(isM(v), lambda: eget(ofM(v), f), lambda: lnth(ofQ(v), idx_of(ofS(f), llen(ofQ(v)))), Val)
    if v[0] == 'M':
        return eget(v[2], f)
    return lnth(v[2], idx_of(ofS(f), len(v[2])))


sel = Rec('sel', [LV, Val], Val, lambda v: v, lambda f, r, v: sel(r, step(v, f)))
sel_ok = Rec('sel_ok', [LV, Val], Bool, lambda v: True, lambda f, r, v: And(step_ok(v, f), lambda: 0) if False else
             (Ite(step_ok(v, f), lambda: sel_ok(r, step(v, f)), False)))
# fields followed before the one that cannot be
sel_err = Rec('sel_err', [LV, Val], LV, lambda v: (), lambda f, r, v: Ite(step_ok(v, f), lambda: lcons(f, sel_err(r, step(v, f))), (), LV))


def is_path(p, fs):
    """the text p is a path with exactly the fields fs"""
    return [parseable(p, DOT), Eq(fields(p, DOT), fs)]


def at(fs):
    return lambda p: is_path(p, fs)


# -------------------------------------------- what iterative_select yields
def yel(y):
    return lh(ofQ(y))


def ypath(y):
    return ofS(lh(lt(ofQ(y))))


def yrem(y):
    return ofS(lh(lt(lt(ofQ(y)))))


def ytuple(y):
    return And(isQ(y), lambda: 0) if False else (
        And(isQ(y), Eq(kindQ(y), TUPLE), Eq(ofQ(y), lcons(yel(y), lcons(vstr(ypath(y)), lcons(vstr(yrem(y)), ()))))) if isz(y) else
        (y[0] == 'Q' and len(y[2]) == 3 and y[2][1][0] == 'S' and y[2][2][0] == 'S'))


def _wf_cons(y, ys, rest, v, pre):
    ok = And(ytuple(y), Eq(yel(y), v), parseable(ypath(y), DOT), parseable(yrem(y), DOT)) if isz(y) or isz(v) else (
        ytuple(y) and L_ceq(yel(y), v) and parseable(ypath(y), DOT) and parseable(yrem(y), DOT))
    return Ite(ok, lambda: And(Eq(fields(ypath(y), DOT), pre), Eq(fields(yrem(y), DOT), rest),
               Ite(empty(rest), lambda: empty(ys), lambda:
                   Ite(step_ok(v, lh(rest)), lambda: wfsel(ys, lt(rest), step(v, lh(rest)), lapp(pre, lcons(lh(rest), ()))), lambda: empty(ys)))), False)


from pyvc.logic import _ceq as L_ceq  # noqa
# ys = the selections of following the fields `rest` from v, the first one with the path `pre`
wfsel = Rec('wfsel', [LV, LV, Val, LV], Bool, lambda rest, v, pre: False, _wf_cons)
# pairwise: a has the fields of b with f in front
pw = Rec('pw', [LV, LV, Val], Bool, lambda bs, f: empty(bs),
         lambda a, r, bs, f: Ite(empty(bs), False, lambda: And(
             ytuple(a), Eq(yel(a), yel(lh(bs))), Eq(yrem(a), yrem(lh(bs))), parseable(ypath(a), DOT),
             Eq(fields(ypath(a), DOT), lcons(f, fields(ypath(lh(bs)), DOT))), pw(r, lt(bs), f))))
allpp = Rec('allpp', [LV], Bool, lambda: True, lambda y, r: And(ytuple(y), parseable(ypath(y), DOT), allpp(r)))

Lemma('pw_app', [('a', LV), ('b', LV), ('x', LV), ('y', LV), ('f', Val)],
      lambda a, b, x, y, f: Implies(And(pw(a, b, f), pw(x, y, f)), pw(lapp(a, x), lapp(b, y), f)), on='a',
      patterns=lambda a, b, x, y, f: [(lapp(a, x), lapp(b, y), pw(a, b, f))])
Lemma('allpp_app', [('a', LV), ('b', LV)], lambda a, b: allpp(lapp(a, b)) == z3.And(allpp(a), allpp(b)), on='a', patterns=lambda a, b: [allpp(lapp(a, b))])
Lemma('wfsel_allpp', [('ys', LV), ('rest', LV), ('v', Val), ('pre', LV)], lambda ys, rest, v, pre: Implies(wfsel(ys, rest, v, pre), allpp(ys)), on='ys',
      patterns=lambda ys, rest, v, pre: [wfsel(ys, rest, v, pre)])
Lemma('pw_wfsel', [('as_', LV), ('bs', LV), ('f', Val), ('rest', LV), ('v', Val), ('pre', LV)],
      lambda a, b, f, rest, v, pre: Implies(And(pw(a, b, f), wfsel(b, rest, v, pre)), wfsel(a, rest, v, lcons(f, pre))), on='as_',
      patterns=lambda a, b, f, rest, v, pre: [(pw(a, b, f), wfsel(b, rest, v, pre))])
Lemma('wfsel_last', [('ys', LV), ('rest', LV), ('v', Val), ('pre', LV)],
      lambda ys, rest, v, pre: Implies(And(wfsel(ys, rest, v, pre), sel_ok(rest, v)), z3.And(ys != LV.lnil, yel(llast(ys)) == sel(rest, v))), on='ys',
      patterns=lambda ys, rest, v, pre: [wfsel(ys, rest, v, pre)])


def _install(e):
    def attr(k, sort):
        def f(e, st, v):
            e.assumptions.add('a value with the attributes element / path / remaining_path is an ElementSelection tuple')
            yield st, e.norm(S(sort, [yel, ypath, yrem][k](v.t)))
        return f

    def replace(e, st, r, args, kwargs):
        items = [S('val', yel(r.t)), S('str', ypath(r.t)), S('str', yrem(r.t))]
        for k, v in kwargs.items():
            items[('element', 'path', 'remaining_path').index(k)] = v
        yield st, T(items, marsh.element.ElementSelection)
    e.val_attrs.update(element=attr(0, 'val'), path=attr(1, 'str'), remaining_path=attr(2, 'str'))
    e.meth_models[('val', '_replace')] = replace


E.EXTRA_MODELS.append(_install)


def _F(a):
    return fields(a.path, DOT)


def _isel_inv(v):
    fs = fields(v.a.path, DOT)
    ys = v.yields
    return [Not(empty(ys)), Eq(lh(ys), lh(v.entry.yields if v.entry else ys)), pw(lt(ys), v.done, lh(fs)), allpp(v.rest)]


iterative_select = Contract(
    'marsh.element:iterative_select', {'element': 'val', 'path': 'str'}, ret='gen',
    cases=lambda a: [
        ret(And(parseable(a.path, DOT), sel_ok(_F(a), a.element)), where=lambda t: [wfsel(t, _F(a), a.element, ())], name='path exists'),
        ret(And(parseable(a.path, DOT), Not(sel_ok(_F(a), a.element))), where=lambda t: [wfsel(t, _F(a), a.element, ())],
            exc=PathError, path=at(sel_err(_F(a), a.element)), name='path does not exist'),
        ret(Not(parseable(a.path, DOT)), lcons(vseq(TUPLE, lcons(a.element, lcons(vstr(()), lcons(vstr(a.path), ())))), ()), exc=PathError, path=(), name='malformed path'),
    ],
    loops=[Loop(_isel_inv, name='selections')],
    lemmas=('go_jf', 'pw_app', 'allpp_app', 'wfsel_allpp', 'pw_wfsel', 'lapp_nil', 'lapp_assoc', 'go_nonempty', 'nonempty_init'))

select = Contract(
    'marsh.element:select', {'element': 'val', 'path': 'str'}, ret='val',
    cases=lambda a: [
        ret(And(parseable(a.path, DOT), sel_ok(_F(a), a.element)), lambda: sel(_F(a), a.element)),
        exc(And(parseable(a.path, DOT), Not(sel_ok(_F(a), a.element))), PathError, at(sel_err(_F(a), a.element))),
        exc(Not(parseable(a.path, DOT)), PathError, ()),
    ],
    lemmas=('wfsel_last',))


# ------------------------------------------------------------------ override
DICT0 = vmap(DICT, ())


def _ite_c(c, a, b):
    return Ite(c, a, b, Val)


def combined(old, new):
    """combine for one value: union of two mappings (new wins), concatenation of two sequences, else the new value"""
    return _ite_c(And(isM(old), isM(new)), lambda: vmap(DICT, eupdate(ofM(old), ofM(new))), lambda:
           _ite_c(And(isQ(old), isQ(new)), lambda: vseq(TUPLE, lapp(ofQ(old), ofQ(new))), new))


def _ov_seq_ok(f, n):
    s = ofS(f)
    return And(int_ok(s), 0 <= idx_of(s, n), idx_of(s, n) <= n) if isz(s) or isz(n) else (int_ok(s) and 0 <= idx_of(s, n) <= n)


def _get_or(e, f):
    return _ite_c(ehas(e, f), lambda: eget(e, f), DICT0)


def ov_base(v):
    return _ite_c(missing(v), DICT0, v)


def _elemlen(v):
    return llen(ofQ(v))


def ov_step_ok(v0, f):
    v = ov_base(v0)
    return Ite(isM(v), True, lambda: Ite(isQ(v), lambda: _ov_seq_ok(f, _elemlen(v)), False), Bool)


def ov_step(v0, f):
    """what the recursion continues with below field f"""
    v = ov_base(v0)
    return _ite_c(isM(v), lambda: _get_or(ofM(v), f), lambda:
           _ite_c(Eq(idx_of(ofS(f), _elemlen(v)), _elemlen(v)), DICT0, lambda: lnth(ofQ(v), idx_of(ofS(f), _elemlen(v)))))


def ov_put(v0, f, x):
    v = ov_base(v0)
    return _ite_c(isM(v), lambda: vmap(DICT, eset(ofM(v), f, x)), lambda:
           _ite_c(Eq(idx_of(ofS(f), _elemlen(v)), _elemlen(v)), lambda: vseq(TUPLE, lapp(ofQ(v), lcons(x, ()))), lambda:
                  vseq(TUPLE, lupd(ofQ(v), idx_of(ofS(f), _elemlen(v)), x))))


ov = Rec('ov', [LV, Val, Val, Bool], Val, lambda v, new, c: Ite(c, lambda: combined(v, new), new, Val),
         lambda f, r, v, new, c: ov_put(v, f, ov(r, ov_step(v, f), new, c)))
ov_ok = Rec('ov_ok', [LV, Val], Bool, lambda v: True, lambda f, r, v: Ite(ov_step_ok(v, f), lambda: ov_ok(r, ov_step(v, f)), False, Bool))
ov_err = Rec('ov_err', [LV, Val], LV, lambda v: (), lambda f, r, v: Ite(ov_step_ok(v, f), lambda: lcons(f, ov_err(r, ov_step(v, f))), (), LV))

override = Contract(
    'marsh.element:override', {'element': 'val', 'value': 'val', 'path': 'str', 'combine': 'bool'}, ret='val',
    cases=lambda a: [
        ret(And(parseable(a.path, DOT), ov_ok(_F(a), a.element)), lambda: ov(_F(a), a.element, a.value, a.combine), name='set'),
        exc(And(parseable(a.path, DOT), Not(ov_ok(_F(a), a.element))), PathError, at(ov_err(_F(a), a.element)), name='not traversable'),
        exc(Not(parseable(a.path, DOT)), PathError, (), name='malformed path'),
    ],
    lemmas=('go_jf', 'lapp_nil', 'lapp_assoc', 'go_nonempty', 'nonempty_init', 'lupd_append', 'llen_nonneg', 'llen_app', 'lnth_snoc'))

# properties of override, over its specification
Lemma('C03_set_get', [('fs', LV), ('v', Val), ('new', Val)],
      lambda fs, v, new: Implies(ov_ok(fs, v), z3.And(sel_ok(fs, ov(fs, v, new, False)), sel(fs, ov(fs, v, new, False)) == new)), on='fs',
      uses=('eget_set', 'ehas_set', 'lnth_upd', 'lupd_len', 'llen_app', 'lnth_snoc', 'llen_nonneg'))


def _same_place(v, f, g):
    n = llen(ofQ(v))
    return Or(And(isM(v), Eq(f, g)), And(isQ(v), Eq(idx_of(ofS(f), n), idx_of(ofS(g), n))))


def _stable(v, f, g):
    """an index counted from the end does not move: nothing is appended, or g counts from the start"""
    n = llen(ofQ(v))
    return Or(isM(v), int_of(ofS(g)) >= 0, Ne(idx_of(ofS(f), n), n))


# the paths fs and gs separate somewhere below v
apart = Rec('apart', [LV, LV, Val], Bool, lambda gs, v: False,
            lambda f, r, gs, v: Ite(empty(gs), False, lambda: And(_stable(v, f, lh(gs)), Ite(_same_place(v, f, lh(gs)), lambda: apart(r, lt(gs), step(v, f)), True))))
Lemma('C03_frame', [('fs', LV), ('gs', LV), ('v', Val), ('new', Val), ('c', Bool)],
      lambda fs, gs, v, new, c: Implies(And(ov_ok(fs, v), sel_ok(gs, v), apart(fs, gs, v)),
                                        z3.And(sel_ok(gs, ov(fs, v, new, c)), sel(gs, ov(fs, v, new, c)) == sel(gs, v))), on='fs',
      uses=('eget_set', 'ehas_set', 'lnth_upd', 'lupd_len', 'llen_app', 'lnth_snoc', 'llen_nonneg', 'lnth_appl', 'sel_ok_nonempty'),
      patterns=lambda fs, gs, v, new, c: [(ov(fs, v, new, c), sel(gs, v))])
Lemma('sel_ok_nonempty', [('gs', LV), ('v', Val)], lambda gs, v: Implies(And(sel_ok(gs, v), gs != LV.lnil), step_ok(v, lh(gs))), on='gs', patterns=lambda gs, v: [sel_ok(gs, v)])


# ------------------------------------------------------------------- remove
def rm_leaf(v, f):
    return _ite_c(isM(v), lambda: vmap(DICT, edel(ofM(v), f)), lambda: vseq(TUPLE, ldel(ofQ(v), idx_of(ofS(f), llen(ofQ(v))))))


def rm_put(v, f, x):
    return _ite_c(isM(v), lambda: vmap(DICT, eset(ofM(v), f, x)), lambda: vseq(TUPLE, lupd(ofQ(v), idx_of(ofS(f), llen(ofQ(v))), x)))


rm = Rec('rm', [LV, Val], Val, lambda v: v, lambda f, r, v: _ite_c(empty(r), lambda: rm_leaf(v, f), lambda: rm_put(v, f, rm(r, step(v, f)))))


def _container(v):
    return Or(isM(v), isQ(v))


remove = Contract(
    'marsh.element:remove', {'element': 'val', 'path': 'str'}, ret='val',
    cases=lambda a: [
        exc(Not(parseable(a.path, DOT)), PathError, (), name='malformed path'),
        exc(And(parseable(a.path, DOT), Or(empty(_F(a)), Not(_container(a.element)))), ValueError, name='nothing to remove'),
        ret(And(parseable(a.path, DOT), Not(empty(_F(a))), _container(a.element), sel_ok(_F(a), a.element)), lambda: rm(_F(a), a.element), name='removed'),
        exc(And(parseable(a.path, DOT), Not(empty(_F(a))), _container(a.element), Not(sel_ok(_F(a), a.element))), PathError, at(sel_err(_F(a), a.element)), name='no such path'),
    ],
    lemmas=('go_jf', 'lapp_nil', 'lapp_assoc', 'go_nonempty', 'nonempty_init', 'jf_empty', 'go_esc0', 'esc_empty', 'nonempty_allstr'))


# -------------------------------------------------------- standardize
def _std_py(v):
    if v[0] == 'M':
        return ('M', DICT, stdf(v[2], ()))
    if v[0] == 'Q':
        return ('Q', TUPLE, stdl(v[2]))
    return v


def _std_facts(f):
    v = z3.Const('v_std', Val)
    yield 'unfold', z3.ForAll([v], f(v) == Ite(isM(v), lambda: vmap(DICT, stdf(ofM(v), LE.enil)), lambda: Ite(isQ(v), lambda: vseq(TUPLE, stdl(ofQ(v))), v, Val), Val), patterns=[f(v)])


std = Unint('std', [Val], Val, py=_std_py, facts=_std_facts, doc='recursive definition over the value tree', shadow=True)
stdl = Rec('stdl', [LV], LV, lambda: (), lambda h, t: lcons(std(h), stdl(t)))
stdf = Rec('stdf', [LE, LE], LE, lambda acc: acc, lambda k, v, t, acc: stdf(t, eset(acc, k, std(v))))
Lemma('stdl_app', [('a', LV), ('b', LV)], lambda a, b: stdl(lapp(a, b)) == lapp(stdl(a), stdl(b)), on='a', patterns=lambda a, b: [stdl(lapp(a, b))])
Lemma('C06_keys', [('e', LE), ('acc', LE), ('k', Val)], lambda e, acc, k: ehas(stdf(e, acc), k) == z3.Or(ehas(e, k), ehas(acc, k)), on='e',
      patterns=lambda e, acc, k: [ehas(stdf(e, acc), k)], uses=('ehas_set',))
Lemma('C06_other', [('e', LE), ('acc', LE), ('k', Val)], lambda e, acc, k: Implies(Not(ehas(e, k)), eget(stdf(e, acc), k) == eget(acc, k)), on='e',
      patterns=lambda e, acc, k: [eget(stdf(e, acc), k)], uses=('eget_set',))
Lemma('C06_values', [('e', LE), ('acc', LE), ('k', Val)], lambda e, acc, k: Implies(And(ewf(e), ehas(e, k)), eget(stdf(e, acc), k) == std(eget(e, k))), on='e',
      patterns=lambda e, acc, k: [eget(stdf(e, acc), k)], uses=('eget_set', 'C06_other'))
Lemma('C06_items', [('q', LV), ('i', Int)], lambda q, i: Implies(And(0 <= i, i < llen(q)), lnth(stdl(q), i) == std(lnth(q, i))), on='q',
      patterns=lambda q, i: [lnth(stdl(q), i)], uses=('llen_nonneg',))
Lemma('C06_length', [('q', LV)], lambda q: llen(stdl(q)) == llen(q), on='q', patterns=lambda q: [stdl(q)])

from pyvc.contract import Const  # noqa
eget_last = Rec('eget_last', [LE, Val], Val, lambda k: VNone, lambda k0, v0, t, k: Ite(ehas(t, k), lambda: eget_last(t, k), lambda: Ite(Eq(k0, k), v0, VNone, Val), Val))
standardize = Contract(
    'marsh.element:standardize', {'element': 'val', 'mapping_type': Const(dict), 'sequence_type': Const(tuple)}, ret='val',
    requires=lambda a: [wfv(a.element)],
    cases=lambda a: [ret(True, std(a.element))],
    loops=[Loop(lambda v: [Eq(stdf(v.all, ()), stdf(v.rest, v.acc))], name='mapping'), Loop(lambda v: [Eq(v.acc, stdl(v.done))], name='sequence')],
    lemmas=('stdl_app', 'lapp_nil', 'eget_mid', 'wfve_app', 'wfvl_app', 'ehas_app'))


# ------------------------------------------------------------- has_missing
def _hm_py(v):
    return missing(v) or (v[0] == 'M' and (any(map(_hm_py, (k for k, _ in v[2]))) or any(_hm_py(x) for _, x in v[2]))) or (v[0] == 'Q' and any(map(_hm_py, v[2])))


def _hm_facts(f):
    v = z3.Const('v_hm', Val)
    yield 'unfold', z3.ForAll([v], f(v) == z3.Or(missing(v), z3.And(isM(v), z3.Or(hml(ekeys(ofM(v))), hml(evals(ofM(v))))), z3.And(isQ(v), hml(ofQ(v)))), patterns=[f(v)])


hm = Unint('hm', [Val], Bool, py=_hm_py, facts=_hm_facts, doc='recursive definition over the value tree', shadow=True)
hml = Rec('hml', [LV], Bool, lambda: False, lambda h, t: Or(hm(h), hml(t)))
hmm = Rec('hmm', [LV], LV, lambda: (), lambda h, t: lcons(vbool(hm(h)), hmm(t)))
Lemma('lany_hmm', [('a', LV)], lambda a: lany(hmm(a)) == hml(a), on='a', patterns=lambda a: [hmm(a)])
has_missing = Contract('marsh.element:has_missing', {'element': 'val'}, ret='bool', cases=lambda a: [ret(True, hm(a.element))], lemmas=('lany_hmm',))
has_missing.mapped = hmm
Lemma('C06_missing_item', [('q', LV), ('x', Val)], lambda q, x: Implies(And(lhas(q, x), hm(x)), hml(q)), on='q')


# ------------------------------------------------------------------- merge
def _at(e, k):
    return Ite(ehas(e, k), lambda: eget(e, k), MISSING_STR, Val)


def _mg_py(a, b, c):
    if a[0] == 'M' and b[0] == 'M':
        return ('M', DICT, mgf(sperm(lapp(ekeys(a[2]), ekeys(b[2]))), a[2], b[2], c, ()))
    if c and a[0] == 'Q' and b[0] == 'Q':
        return ('Q', TUPLE, a[2] + b[2])
    return a if missing(b) else b


def _mg_facts(f):
    a, b, c = z3.Const('a_mg', Val), z3.Const('b_mg', Val), z3.Const('c_mg', Bool)
    yield 'unfold', z3.ForAll([a, b, c], f(a, b, c) == z3.If(
        z3.And(isM(a), isM(b)), vmap(DICT, mgf(sperm(lapp(ekeys(ofM(a)), ekeys(ofM(b)))), ofM(a), ofM(b), c, LE.enil)),
        z3.If(z3.And(c, isQ(a), isQ(b)), vseq(TUPLE, lapp(ofQ(a), ofQ(b))), z3.If(missing(b), a, b))), patterns=[f(a, b, c)])


mg = Unint('mg', [Val, Val, Bool], Val, py=_mg_py, facts=_mg_facts, doc='recursive definition over the two value trees', shadow=True)
mgf = Rec('mgf', [LV, LE, LE, Bool, LE], LE, lambda a, b, c, acc: acc,
          lambda k, r, a, b, c, acc: mgf(r, a, b, c, eset(acc, k, mg(_at(a, k), _at(b, k), c))))
Lemma('mgf_has', [('ks', LV), ('a', LE), ('b', LE), ('c', Bool), ('acc', LE), ('k', Val)],
      lambda ks, a, b, c, acc, k: ehas(mgf(ks, a, b, c, acc), k) == z3.Or(lhas(ks, k), ehas(acc, k)), on='ks',
      patterns=lambda ks, a, b, c, acc, k: [ehas(mgf(ks, a, b, c, acc), k)], uses=('ehas_set',))
Lemma('mgf_get', [('ks', LV), ('a', LE), ('b', LE), ('c', Bool), ('acc', LE), ('k', Val)],
      lambda ks, a, b, c, acc, k: eget(mgf(ks, a, b, c, acc), k) == Ite(lhas(ks, k), lambda: mg(_at(a, k), _at(b, k), c), lambda: eget(acc, k), Val), on='ks',
      patterns=lambda ks, a, b, c, acc, k: [eget(mgf(ks, a, b, c, acc), k)], uses=('eget_set',))
# the law: merging mappings is the union of the keys, value by value, whatever the iteration order
Lemma('C05_pointwise', [('a', Val), ('b', Val), ('c', Bool), ('k', Val)],
      lambda a, b, c, k: Implies(And(isM(a), isM(b)), z3.And(
          isM(mg(a, b, c)), ehas(ofM(mg(a, b, c)), k) == z3.Or(ehas(ofM(a), k), ehas(ofM(b), k)),
          Implies(z3.Or(ehas(ofM(a), k), ehas(ofM(b), k)), eget(ofM(mg(a, b, c)), k) == mg(_at(ofM(a), k), _at(ofM(b), k), c)))),
      uses=('mgf_has', 'mgf_get', 'lhas_app', 'lhas_ekeys'))
Lemma('C05_last_wins', [('a', Val), ('b', Val), ('c', Bool)],
      lambda a, b, c: Implies(Not(And(isM(a), isM(b))), mg(a, b, c) == z3.If(z3.And(c, isQ(a), isQ(b)), vseq(TUPLE, lapp(ofQ(a), ofQ(b))), z3.If(missing(b), a, b))))
_merge = Contract(
    'marsh.element:_merge', {'element_a': 'val', 'element_b': 'val', 'concatenate': 'bool'}, ret='val',
    cases=lambda a: [ret(True, mg(a.element_a, a.element_b, a.concatenate))], unordered=True,
    loops=[Loop(lambda v: [Eq(mgf(v.all, ofM(v.a.element_a), ofM(v.a.element_b), v.a.concatenate, ()), mgf(v.rest, ofM(v.a.element_a), ofM(v.a.element_b), v.a.concatenate, v.acc))], name='keys')])
mfold = Rec('mfold', [LV, Val, Bool], Val, lambda e, c: e, lambda h, t, e, c: mfold(t, mg(e, h, c), c))
merge = Contract(
    'marsh.element:merge', {'element': 'val', 'elements': 'tuplelv', 'concatenate': 'bool'}, ret='val',
    cases=lambda a: [ret(True, mfold(a.elements, a.element, a.concatenate))], unordered=True,
    call=lambda fn, a: fn(a['element'], *a['elements'], concatenate=a['concatenate']),
    loops=[Loop(lambda v: [Eq(mfold(v.all, v.a.element, v.a.concatenate), mfold(v.rest, v.val('element'), v.a.concatenate))], name='elements')])
