"""Contracts of the conversions between primitive values (property C08)."""
import pyvc  # noqa
import marsh
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Const
from pyvc.builtin_models import int_ok, int_of, fl_ok, fl_of, to_lower
from .kinds import missing

WORDS_T = [L.S(w) for w in ('1', 'true', 'y', 'yes', 'on')]
WORDS_F = [L.S(w) for w in ('0', 'false', 'n', 'no', 'off')]


def prim(v):
    return Or(isB(v), isI(v), isF(v), isS(v))


def word(s, ws):
    return Or(*[Eq(to_lower(s), w) for w in ws])


str_to_bool = Contract('marsh.utils:str_to_bool', {'value': 'str'}, ret='bool', cases=lambda a: [
    ret(word(a.value, WORDS_T), True), ret(And(Not(word(a.value, WORDS_T)), word(a.value, WORDS_F)), False),
    exc(Not(Or(word(a.value, WORDS_T), word(a.value, WORDS_F))), ValueError)])

float_to_int = Contract('marsh.utils:float_to_int', {'value': 'float'}, ret='int', cases=lambda a: [
    ret(fl_isint(a.value), lambda: fl_trunc(a.value)), exc(Not(fl_isint(a.value)), ValueError)])


def si_ok(s):
    """text of an integer: as int() reads it, or as float() reads it when that has no decimals"""
    return Ite(int_ok(s), True, lambda: And(fl_ok(s), fl_isint(fl_of(s))), Bool)


def si(s):
    return Ite(int_ok(s), lambda: int_of(s), lambda: fl_trunc(fl_of(s)), Int)


str_to_int = Contract('marsh.utils:str_to_int', {'value': 'str'}, ret='int', cases=lambda a: [
    ret(si_ok(a.value), lambda: si(a.value)), exc(Not(si_ok(a.value)), ValueError)])


def is_num(v, n):
    """the number v equals n"""
    return num_eq(v, ('I', n)) if isz(v) else (v[0] in 'BIF' and v[1] == n)


def b_ok(v):
    return Or(isB(v), And(Or(isI(v), isF(v)), Or(is_num(v, 1), is_num(v, 0), word(py_str(v), WORDS_T + WORDS_F))), And(isS(v), word(ofS(v), WORDS_T + WORDS_F))) if isz(v) else (
        v[0] == 'B' or v[0] in 'IF' and (v[1] in (0, 1)) or v[0] == 'S' and word(v[1], WORDS_T + WORDS_F))


def b_val(v):
    return Ite(isB(v), lambda: ofB(v), lambda: Ite(isS(v), lambda: word(ofS(v), WORDS_T), lambda: Or(is_num(v, 1), And(Not(is_num(v, 0)), word(py_str(v), WORDS_T))), Bool), Bool)


primitive_to_bool = Contract('marsh.utils:primitive_to_bool', {'value': 'val'}, ret='bool', requires=lambda a: [prim(a.value)], cases=lambda a: [
    ret(b_ok(a.value), lambda: b_val(a.value)), exc(Not(b_ok(a.value)), ValueError)])


def c_ok(ty, v):
    """can the primitive v be converted to ty"""
    if ty is bool:
        return b_ok(v)
    if ty is int:
        return Or(isB(v), isI(v), Ite(isF(v), lambda: fl_isint(ofF(v)), lambda: Ite(isS(v), lambda: si_ok(ofS(v)), False, Bool), Bool))
    if ty is float:
        return Or(isF(v), isB(v), Ite(isI(v), lambda: fl_int_ok(ofI(v)), lambda: Ite(isS(v), lambda: fl_ok(ofS(v)), False, Bool), Bool))
    return True


def c_val(ty, v):
    if ty is bool:
        return vbool(b_val(v))
    if ty is int:
        return Ite(isI(v), v, lambda: Ite(isB(v), lambda: vint(Ite(ofB(v), 1, 0, Int)), lambda: Ite(isF(v), lambda: vint(fl_trunc(ofF(v))), lambda: vint(si(ofS(v))), Val), Val), Val)
    if ty is float:
        return Ite(isF(v), v, lambda: Ite(isB(v), lambda: vfloat(Ite(ofB(v), lift(1.0, Fl), lift(0.0, Fl), Fl) if isz(v) else float(ofB(v))),
                   lambda: Ite(isI(v), lambda: vfloat(fl_of_int(ofI(v))), lambda: vfloat(fl_of(ofS(v))), Val), Val), Val)
    return Ite(isS(v), v, lambda: vstr(py_str(v)), Val)


cast_primitive = {}
for _t in (bool, int, float, str):
    cast_primitive[_t] = Contract(
        'marsh.utils:cast_primitive', {'type_': Const(_t), 'value': 'val'}, ret='val', name=f'marsh.utils.cast_primitive to {_t.__name__}', short=f'cast_primitive_{_t.__name__}',
        cases=(lambda t: lambda a: [
            ret(And(prim(a.value), c_ok(t, a.value)), lambda: c_val(t, a.value), name='converted'),
            exc(Or(Not(prim(a.value)), Not(c_ok(t, a.value))), ValueError, name='rejected')])(_t))


# ------------------------------------------------------------- literals
def lit_ok(lit, v):
    """does the value v, converted to the type of the literal, equal it"""
    return And(prim(v), Ite(isB(lit), lambda: lok(bool, lit, v), lambda: Ite(isI(lit), lambda: lok(int, lit, v), lambda: Ite(isF(lit), lambda: lok(float, lit, v), lambda: lok(str, lit, v), Bool), Bool), Bool))


def lok(ty, lit, v):
    ok = c_ok(ty, v)
    if ok is False:
        return False
    x = c_val(ty, v) if isz(ok) or ok is True else None
    return And(ok, Eq(x, lit) if ty is str else num_eq(x, lit))


lit_prim = lambda a: [prim(a.literal)]
cast_literal = Contract('marsh.utils:cast_literal', {'literal': 'val', 'value': 'val'}, ret='val', requires=lit_prim, cases=lambda a: [
    ret(lit_ok(a.literal, a.value), lambda: a.literal), exc(Not(lit_ok(a.literal, a.value)), ValueError)])

allprim = Rec('allprim', [LV], Bool, lambda: True, lambda h, t: And(prim(h), allprim(t)))
lit_any = Rec('lit_any', [LV, Val], Bool, lambda v: False, lambda h, t, v: Or(lit_ok(h, v), lit_any(t, v)))
lit_first = Rec('lit_first', [LV, Val], Val, lambda v: VNone, lambda h, t, v: Ite(lit_ok(h, v), h, lambda: lit_first(t, v)))
match_literal = Contract('marsh.utils:match_literal', {'literals': 'tuplelv', 'value': 'val'}, ret='val', requires=lambda a: [allprim(a.literals)], cases=lambda a: [
    ret(lit_any(a.literals, a.value), lambda: lit_first(a.literals, a.value)), exc(Not(lit_any(a.literals, a.value)), ValueError)],
    loops=[Loop(lambda v: [allprim(v.rest), Eq(lit_any(v.all, v.a.value), lit_any(v.rest, v.a.value)), Eq(lit_first(v.all, v.a.value), lit_first(v.rest, v.a.value))], name='literals')],
    gens={'literals': lambda rng: tuple(rng.choice([True, False, 0, 1, 2, 1.0, 2.5, 'a', '1', 'True', 'yes', '']) for _ in range(rng.randint(0, 4))),
          'value': lambda rng: rng.choice([True, False, 0, 1, 2, 1.0, 2.5, 'a', '1', 'true', 'yes', '2.5', '', None, [1]])})
cast_literal.gens = {'literal': lambda rng: rng.choice([True, False, 0, 1, 2, 1.0, 2.5, 'a', '1', 'True', 'yes', '']), 'value': match_literal.gens['value']}

NONE_T = [L.S('null'), L.S('none')]
NONE_TYPE = ('C', const_of(type(None)))


def none_ok(v):
    return Or(missing(v), isN(v), Eq(v, NONE_TYPE), word(py_str(v), NONE_T))


cast_none = Contract('marsh.utils:cast_none', {'value': 'val'}, ret='none', cases=lambda a: [
    ret(none_ok(a.value)), exc(Not(none_ok(a.value)), ValueError)],
    gens={'value': lambda rng: rng.choice([None, '???', 'null', 'NULL', 'None', 'nOnE', '', 'nul', 0, False, [], ['null'], 'none ', type(None)])})
