"""Theorems over the specifications of marshaling and unmarshaling: what is
marshaled unmarshals to the same value (property C26), given that it does for
the parts."""
import pyvc  # noqa
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from .cast import c_ok, c_val, prim, lit_ok
from .marshaling import M, ml_ok, ml_map, mm_ok, mm_map, mkey, special, attr, fails
from .schemas import U, schema_type, sq_ok, sq_map, mp_ok, mp_map
from .types import mname, en_text, en_any, en_first

# ------------------------------------------------------------- leaves
for _t, _is in ((bool, isB), (int, isI), (float, isF), (str, isS)):
    Lemma(f'C26_{_t.__name__}', [('v', Val)], (lambda t, i: lambda v: Implies(i(v), z3.And(lift(c_ok(t, v), Bool), c_val(t, v) == v)))(_t, _is))
noname = Rec('noname', [LV, Val], Bool, lambda n: True, lambda h, t, n: And(Ne(mname(h), n), noname(t, n)))        # no member has that name
Lemma('C26_enum', [('a', LV), ('s', Val), ('b', LV)], lambda a, s, b: Implies(And(en_text(a), isS(mname(s)), noname(a, mname(s))), z3.And(
    en_any(lapp(a, lcons(s, b)), mname(s)), en_first(lapp(a, lcons(s, b)), mname(s)) == schema_type(s))), on='a')

# ------------------------------------------------------------- sequences
rt_l = Rec('rt_l', [LV, Val], Bool, lambda s: True, lambda h, t, s: And(M.ok(h), U.ok(s, M.val(h)), Eq(U.val(s, M.val(h)), h), rt_l(t, s)))       # the round trip works for every item
Lemma('C26_seq', [('l', LV), ('s', Val)], lambda l, s: Implies(rt_l(l, s), z3.And(ml_ok(l), sq_ok(ml_map(l), s), sq_map(ml_map(l), s) == l)), on='l')

# ------------------------------------------------------------- mappings
rt_e = Rec('rt_e', [LE, Val, Val], Bool, lambda s, w: True, lambda k, v, t, s, w: And(
    M.ok(v), Or(Not(special(k)), M.ok(k)), U.ok(s, mkey(k)), Eq(U.val(s, mkey(k)), k), U.ok(w, M.val(v)), Eq(U.val(w, M.val(v)), v), rt_e(t, s, w)))
mm_list = Rec('mm_list', [LE], LE, lambda: (), lambda k, v, t: econs(mkey(k), M.val(v), mm_list(t)))
Lemma('eset_new', [('e', LE), ('k', Val), ('v', Val)], lambda e, k, v: Implies(Not(ehas(e, k)), eset(e, k, v) == eapp(e, econs(k, v, ()))), on='e', patterns=lambda e, k, v: [eset(e, k, v)])
Lemma('eapp_assoc', [('a', LE), ('b', LE), ('c', LE)], lambda a, b, c: eapp(eapp(a, b), c) == eapp(a, eapp(b, c)), on='a', patterns=lambda a, b, c: [eapp(eapp(a, b), c)])
Lemma('eapp_nil', [('a', LE)], lambda a: eapp(a, LE.enil) == a, on='a', patterns=lambda a: [eapp(a, LE.enil)])
Lemma('ewf_mid', [('a', LE), ('k', Val), ('v', Val), ('b', LE)], lambda a, k, v, b: Implies(ewf(eapp(a, econs(k, v, b))), z3.And(Not(ehas(a, k)), Not(ehas(b, k)))), on='a',
      patterns=lambda a, k, v, b: [eapp(a, econs(k, v, b))], uses=('ehas_app',))
Lemma('mm_map_list', [('e', LE), ('acc', LE)], lambda e, acc: Implies(ewf(eapp(acc, mm_list(e))), mm_map(e, acc) == eapp(acc, mm_list(e))), on='e',
      patterns=lambda e, acc: [mm_map(e, acc)], uses=('ewf_mid', 'eset_new', 'eapp_assoc', 'eapp_nil'))
Lemma('mm_has', [('e', LE), ('k', Val), ('s', Val), ('w', Val)], lambda e, k, s, w: Implies(And(rt_e(e, s, w), Eq(U.val(s, mkey(k)), k), ehas(mm_list(e), mkey(k))), ehas(e, k)), on='e')
Lemma('mm_list_wf', [('e', LE), ('s', Val), ('w', Val)], lambda e, s, w: Implies(And(rt_e(e, s, w), ewf(e)), ewf(mm_list(e))), on='e', uses=('mm_has',))
Lemma('mp_list', [('e', LE), ('s', Val), ('w', Val), ('acc', LE)], lambda e, s, w, acc: Implies(And(rt_e(e, s, w), ewf(eapp(acc, e))), z3.And(
    mp_ok(mm_list(e), s, w), mp_map(mm_list(e), s, w, acc) == eapp(acc, e))), on='e', uses=('ewf_mid', 'eset_new', 'eapp_assoc', 'eapp_nil'))
Lemma('mm_ok_rt', [('e', LE), ('s', Val), ('w', Val)], lambda e, s, w: Implies(rt_e(e, s, w), mm_ok(e)), on='e')
Lemma('C26_map', [('e', LE), ('s', Val), ('w', Val)], lambda e, s, w: Implies(And(rt_e(e, s, w), ewf(e)), z3.And(
    mm_ok(e), mp_ok(mm_map(e, LE.enil), s, w), mp_map(mm_map(e, LE.enil), s, w, LE.enil) == e)), uses=('mm_map_list', 'mm_list_wf', 'mp_list', 'mm_ok_rt'))
