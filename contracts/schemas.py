"""Contracts of the schemas (properties C09 - C14).

A nested schema, an overridable `construct`, a default factory and a class that
is instantiated are abstract here: unknown functions of what they are given,
which give a value, raise a MarshError with a well-formed path, or raise any
other exception.  Every contract below keeps the same promise to its caller
(a MarshError it raises has a well-formed path), so the assumption about nested
schemas is discharged by the contracts of the schemas themselves."""
import types
import typing
import pyvc  # noqa
import marsh
from marsh.schema import template as tpl
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, OtherError, ObjCell
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Const, Obj, Opq
from .kinds import missing
from .path import fields, parseable

DOT = 46
MarshError, UnmarshalError, MissingValueError = marsh.errors.MarshError, marsh.errors.UnmarshalError, marsh.errors.MissingValueError


class Abstract:
    """an unknown partial function: ok / value / is the failure a MarshError / fields of its path"""

    def __init__(self, name, sorts, doc):
        self.ok = Unint(f'{name}_ok', sorts, Bool, doc=doc)
        self.val = Unint(f'{name}_val', sorts, Val, doc=doc)
        self.marsh = Unint(f'{name}_marsh', sorts, Bool, doc=doc)
        self.path = Unint(f'{name}_path', sorts, LV, doc=doc)

    def outcomes(self, e, st, args, node=None):
        """engine outcomes of a call"""
        for st1, b in e.fork(st, self.ok(*args)):
            if b:
                yield st1, e.norm(S('val', self.val(*args)))
                continue
            for st2, m in e.fork(st1, self.marsh(*args)):
                if m:
                    t = fresh(Str, 'path')
                    st2.assume(And(parseable(t, DOT), Eq(fields(t, DOT), self.path(*args))))
                    yield st2, ExcV(e.make_exc(st2, MarshError, t, exact=False))
                else:
                    yield e.throw(st2, OtherError)

    def cases(self, args, pre=True, ok=None, wrap=None, other=None):
        """contract cases for 'what the call does', under the condition pre"""
        o, m = self.ok(*args), self.marsh(*args)
        return [ret(And(pre, o), self.val(*args) if ok is None else ok),
                exc(And(pre, Not(o), m), MarshError, at(wrap(self.path(*args)) if wrap else self.path(*args))),
                exc(And(pre, Not(o), Not(m)), OtherError if other is None else other, None if other is None else at(()))]


def at(fs):
    """the path of the error has exactly these fields"""
    return lambda t: [parseable(t, DOT), Eq(fields(t, DOT), fs)]


# ------------------------------------------------------------- abstract parts
U = Abstract('U', [Val, Val], 'what unmarshaling an element with a nested schema does (nested schema, element)')
F = Abstract('F', [Val], 'what calling a default factory does')
CQ = Abstract('CQ', [Val, LV], 'what constructing a sequence type from a list does')
CM = Abstract('CM', [Val, LE], 'what constructing a mapping type from a dict does')


def _install(e):
    e.meth_models[('schema', 'unmarshal')] = lambda e, st, r, args, kw: U.outcomes(e, st, [r.t, e.to_val(st, args[0] if args else kw['element'])])
    e.attr_models[('schema', 'value')] = lambda e, st, v: iter([(st, S('val', schema_type(v.t)))])

    def anycall(e, st, f, args, kw):
        if args or kw:
            raise E.Unsupported('call of an unknown value with arguments')
        return F.outcomes(e, st, [f.t])
    e.call_models['anycall'] = anycall


schema_type = Unint('schema_type', [Val], Val, doc='the type a nested schema was made for (schema.value)')
E.EXTRA_MODELS.append(_install)

get_type_name = Contract('marsh.utils:get_type_name', {'value': 'any'}, ret='str', cases=lambda a: [ret(True)], runtime=False,
                         assumed='used in error messages only: gives some text')
construct_seq = Contract('marsh.schema.template.sequence:SequenceUnmarshalSchema.construct', {'self': Obj(tpl.SequenceUnmarshalSchema, value='val'), 'value': 'lv'}, runtime=False,
                         name='SequenceUnmarshalSchema.construct', short='construct_seq', cases=lambda a: CQ.cases([a.self.value, a.value]), assumed='overridable: an unknown function of the type and the list of items')
construct_map = Contract('marsh.schema.template.mapping:MappingUnmarshalSchema.construct', {'self': Obj(tpl.MappingUnmarshalSchema, value='val'), 'value': 'le'}, runtime=False,
                         name='MappingUnmarshalSchema.construct', short='construct_map', cases=lambda a: CM.cases([a.self.value, a.value]), assumed='overridable: an unknown function of the type and the dict of items')

# ------------------------------------------------------------- defaults
Base = marsh.schema.UnmarshalSchema
DEF = dict(default='val', default_factory='val', value='val')


def has_def(s):
    return Not(And(missing(s.default), missing(s.default_factory)))


def default_cases(s, pre=True):
    f = missing(s.default_factory)
    return [ret(And(pre, f), s.default, name='default')] + F.cases([s.default_factory], And(pre, Not(f)))


has_default = Contract('marsh.schema.core.unmarshal:UnmarshalSchema.has_default', {'self': Obj(Base, **DEF)}, ret='bool', runtime=False,
                       name='UnmarshalSchema.has_default', cases=lambda a: [ret(True, has_def(a.self))])
get_default = Contract('marsh.schema.core.unmarshal:UnmarshalSchema.get_default', {'self': Obj(Base, **DEF)}, runtime=False,
                       name='UnmarshalSchema.get_default', cases=lambda a: default_cases(a.self))

# ------------------------------------------------------------- sequences
sq_ok = Rec('sq_ok', [LV, Val], Bool, lambda s: True, lambda h, t, s: And(U.ok(s, h), sq_ok(t, s)))
sq_map = Rec('sq_map', [LV, Val], LV, lambda s: (), lambda h, t, s: lcons(U.val(s, h), sq_map(t, s)))
sq_at = Rec('sq_at', [LV, Val, Int], Int, lambda s, i: i, lambda h, t, s, i: Ite(U.ok(s, h), lambda: sq_at(t, s, i + 1), i))      # index and value of the first item that fails
sq_bad = Rec('sq_bad', [LV, Val], Val, lambda s: VNone, lambda h, t, s: Ite(U.ok(s, h), lambda: sq_bad(t, s), h))
Lemma('sq_map_app', [('a', LV), ('b', LV), ('s', Val)], lambda a, b, s: sq_map(lapp(a, b), s) == lapp(sq_map(a, s), sq_map(b, s)), on='a', patterns=lambda a, b, s: [sq_map(lapp(a, b), s)])


def idx_fields(i, rest):
    return lcons(vstr(py_str(vint(i))), rest)


def seq_cases(a):
    s, x = a.self, a.element
    m = missing(x)
    q = And(Not(m), isQ(x))
    xs, v = ofQ(x), s.value_schema
    ok = And(q, sq_ok(xs, v))
    bad = And(q, Not(sq_ok(xs, v)))
    b = sq_bad(xs, v)
    return (default_cases(s, And(m, has_def(s))) + CQ.cases([s.value, ()], And(m, Not(has_def(s))), other=UnmarshalError) + [
        exc(And(Not(m), Not(isQ(x))), UnmarshalError, at(()), name='not a sequence')]
        + CQ.cases([s.value, sq_map(xs, v)], ok, other=UnmarshalError) + [
        exc(And(bad, U.marsh(v, b)), MarshError, at(idx_fields(sq_at(xs, v, 0), U.path(v, b))), name='an item is rejected'),
        exc(And(bad, Not(U.marsh(v, b))), OtherError, name='an item fails')])


def _seq_inv(v):
    s = v.a.self.value_schema
    return [Eq(v.list('prepared_input'), sq_map(v.done, s)), Eq(v.idx, llen(v.done)), Eq(sq_ok(v.all, s), sq_ok(v.rest, s)), Eq(sq_bad(v.all, s), sq_bad(v.rest, s)),
            Eq(sq_at(v.all, s, 0), sq_at(v.rest, s, v.idx))]


sequence_unmarshal = Contract(
    'marsh.schema.template.sequence:SequenceUnmarshalSchema.unmarshal', {'self': Obj(tpl.SequenceUnmarshalSchema, value_schema=Opq('schema'), **DEF), 'element': 'val'}, runtime=False,
    name='template.SequenceUnmarshalSchema.unmarshal', short='sequence_unmarshal', cases=seq_cases, loops=[Loop(_seq_inv, name='items')], lemmas=('llen_app', 'sq_map_app', 'lapp_nil'))

# ------------------------------------------------------------- mappings
mp_ok = Rec('mp_ok', [LE, Val, Val], Bool, lambda s, w: True, lambda k, v, t, s, w: And(U.ok(s, k), U.ok(w, v), mp_ok(t, s, w)))
mp_map = Rec('mp_map', [LE, Val, Val, LE], LE, lambda s, w, acc: acc, lambda k, v, t, s, w, acc: mp_map(t, s, w, eset(acc, U.val(s, k), U.val(w, v))))      # later entries win
mp_badk = Rec('mp_badk', [LE, Val, Val], Val, lambda s, w: VNone, lambda k, v, t, s, w: Ite(And(U.ok(s, k), U.ok(w, v)), lambda: mp_badk(t, s, w), k))       # key and value of the first entry that fails
mp_badv = Rec('mp_badv', [LE, Val, Val], Val, lambda s, w: VNone, lambda k, v, t, s, w: Ite(And(U.ok(s, k), U.ok(w, v)), lambda: mp_badv(t, s, w), v))


def key_fields(k, rest):
    return Ite(empty(py_str(k)), rest, lambda: lcons(vstr(py_str(k)), rest), LV)


def map_cases(a):
    s, x = a.self, a.element
    m = missing(x)
    q = And(Not(m), isM(x))
    xs, ks, vs = ofM(x), s.key_schema, s.value_schema
    ok = mp_ok(xs, ks, vs)
    bad = And(q, Not(ok))
    k, v = mp_badk(xs, ks, vs), mp_badv(xs, ks, vs)
    out = default_cases(s, And(m, has_def(s))) + CM.cases([s.value, ()], And(m, Not(has_def(s))), other=UnmarshalError) + [
        exc(And(Not(m), Not(isM(x))), UnmarshalError, at(()), name='not a mapping')] + CM.cases([s.value, mp_map(xs, ks, vs, ())], And(q, ok), other=UnmarshalError)
    for sid, y, cond in ((ks, k, Not(U.ok(ks, k))), (vs, v, And(U.ok(ks, k), Not(U.ok(vs, v))))):
        out += [exc(And(bad, cond, U.marsh(sid, y)), MarshError, at(key_fields(k, U.path(sid, y))), name='an entry is rejected'),
                exc(And(bad, cond, Not(U.marsh(sid, y))), OtherError, name='an entry fails')]
    return out


def _map_inv(v):
    ks, vs = v.a.self.key_schema, v.a.self.value_schema
    return [Eq(mp_map(v.all, ks, vs, ()), mp_map(v.rest, ks, vs, v.dict('prepared_input'))), Eq(mp_ok(v.all, ks, vs), mp_ok(v.rest, ks, vs)),
            Eq(mp_badk(v.all, ks, vs), mp_badk(v.rest, ks, vs)), Eq(mp_badv(v.all, ks, vs), mp_badv(v.rest, ks, vs))]


mapping_unmarshal = Contract(
    'marsh.schema.template.mapping:MappingUnmarshalSchema.unmarshal', {'self': Obj(tpl.MappingUnmarshalSchema, key_schema=Opq('schema'), value_schema=Opq('schema'), **DEF), 'element': 'val'}, runtime=False,
    name='template.MappingUnmarshalSchema.unmarshal', short='mapping_unmarshal', cases=map_cases, loops=[Loop(_map_inv, name='entries')], requires=lambda a: [wfv(a.element)],
    lemmas=('eget_mid', 'wfve_app', 'ehas_app', 'lapp_nil'))

# ------------------------------------------------------------- unions
NONE_TYPE = ('C', const_of(type(None)))


def none_type(t):
    return Or(isN(t), Eq(t, NONE_TYPE))


un_any = Rec('un_any', [LV, Val], Bool, lambda x: False, lambda h, t, x: Or(U.ok(h, x), un_any(t, x)))
un_first = Rec('un_first', [LV, Val], Val, lambda x: VNone, lambda h, t, x: Ite(U.ok(h, x), lambda: U.val(h, x), lambda: un_first(t, x)))
allC = Rec('allC', [LV], Bool, lambda: True, lambda h, t: And(isC(h), allC(t)))        # identities of schemas
opt_of = Rec('opt_of', [LV], Val, lambda: VNone, lambda h, t: Ite(none_type(schema_type(h)), lambda: opt_of(t), h))       # the first schema that is not the one for None
ty_ann = Unint('ty_ann', [Val], Bool, doc='is the type Annotated[...]')
ty_org = Unint('ty_org', [Val], Val, doc='typing.get_origin')
ty_args = Unint('ty_args', [Val], LV, doc='typing.get_args')
UNIONS = tuple(('C', const_of(t)) for t in (typing.Union, types.UnionType))


def org_setup(e, st):
    e.models[typing.get_origin] = lambda e, st, args, kw: iter([(st, e.norm(S('val', ty_org(e.to_val(st, args[0])))))])
    e.models[typing.get_args] = lambda e, st, args, kw: iter([(st, e.norm(S('val', vseq(TUPLE, ty_args(e.to_val(st, args[0]))))))])


def is_un(t):
    """is it a union of types"""
    return Or(*[Eq(ty_org(t), u) for u in UNIONS])


def plain(t):
    return Ite(ty_ann(t), lambda: ty_org(t), t, Val)


def is_opt(t):
    """a union of which None is a member (of two types: Optional[...])"""
    t = plain(t)
    return And(is_un(t), lhas(ty_args(t), NONE_TYPE))


is_annotated = Contract('marsh.utils:is_annotated', {'value': 'val'}, ret='bool', runtime=False, assumed='typing introspection', short='is_annotated_c', cases=lambda a: [ret(True, ty_ann(a.value))])
is_union = Contract('marsh.utils:is_union', {'type_': 'val'}, ret='bool', cases=lambda a: [ret(True, is_un(a.type_))], runtime=False, setup=org_setup)
is_optional = Contract('marsh.utils:is_optional', {'type_': 'val'}, ret='bool', cases=lambda a: [ret(True, is_opt(a.type_))], runtime=False, setup=org_setup)


def schema_list(e):
    """members of a sequence of nested schemas are nested schemas"""
    def unmarshal(e, st, v):
        from pyvc.values import BMeth
        yield st, BMeth(O(v.t, 'schema'), 'unmarshal')
    e.val_attrs['unmarshal'] = unmarshal
    e.val_attrs['value'] = lambda e, st, v: iter([(st, S('val', schema_type(v.t)))])


def opt_schema(s):
    return Ite(And(Eq(llen(s.schemas), 2), is_opt(s.value)), lambda: opt_of(s.schemas), VNone, Val)


UN = dict(schemas='tuplelv', **DEF)
optional_schema = Contract(
    'marsh.schema.template.union:UnionUnmarshalSchema.optional_schema', {'self': Obj(tpl.UnionUnmarshalSchema, **UN)}, runtime=False, setup=lambda e, st: schema_list(e),
    name='template.UnionUnmarshalSchema.optional_schema', short='optional_schema', requires=lambda a: [allC(a.self.schemas)],
    cases=lambda a: [ret(True, opt_schema(a.self))], loops=[Loop(lambda v: [allC(v.rest), Eq(opt_of(v.all), opt_of(v.rest))], name='schemas')])


def union_cases(a):
    s, x = a.self, a.element
    m = missing(x)
    d = And(m, has_def(s))
    o = opt_schema(s)
    opt = And(Not(d), isC(o))
    uni = And(Not(d), Not(isC(o)))
    none = Or(isN(x), m)
    xs = s.schemas
    return default_cases(s, d) + [
        ret(And(opt, U.ok(o, x)), U.val(o, x), name='optional'), ret(And(opt, Not(U.ok(o, x)), none), VNone, name='None'),
        exc(And(opt, Not(U.ok(o, x)), Not(none), U.marsh(o, x)), MarshError, at(U.path(o, x))), exc(And(opt, Not(U.ok(o, x)), Not(none), Not(U.marsh(o, x))), OtherError),
        ret(And(uni, un_any(xs, x)), un_first(xs, x), name='first schema that accepts'),
        exc(And(uni, Not(un_any(xs, x)), m), MissingValueError, at(()), name='missing'), exc(And(uni, Not(un_any(xs, x)), Not(m)), UnmarshalError, at(()), name='no schema accepts')]


Lemma('opt_of_C', [('l', LV)], lambda l: Implies(allC(l), z3.Or(Val.is_VNone(opt_of(l)), Val.is_VConst(opt_of(l)))), on='l', patterns=lambda l: [opt_of(l)])
union_unmarshal = Contract(
    'marsh.schema.template.union:UnionUnmarshalSchema.unmarshal', {'self': Obj(tpl.UnionUnmarshalSchema, **UN), 'element': 'val'}, runtime=False, setup=lambda e, st: schema_list(e),
    name='template.UnionUnmarshalSchema.unmarshal', short='union_unmarshal', requires=lambda a: [allC(a.self.schemas)], cases=union_cases,
    loops=[Loop(lambda v: [allC(v.rest), Eq(un_any(v.all, v.a.element), un_any(v.rest, v.a.element)), Eq(un_first(v.all, v.a.element), un_first(v.rest, v.a.element))], name='schemas')],
    lemmas=('opt_of_C',))


# ------------------------------------------------------------- leaf schemas
from marsh.schema import types as tys
from .cast import prim, c_ok, c_val, lit_ok
from .element import hm


def leaf_cases(a, ok, val, bad=UnmarshalError, wrap=lambda t: t):
    """missing -> default or MissingValueError; otherwise the value or an UnmarshalError with an empty path"""
    s, x = a.self, a.element
    m = missing(x)
    return default_cases(s, And(m, has_def(s))) + [
        exc(And(m, Not(has_def(s))), MissingValueError, at(()), name='missing'),
        ret(And(Not(m), ok), val, name='value'), exc(And(Not(m), Not(ok)), bad, at(()), name='rejected')]


primitive_unmarshal = {}
for _t in (bool, int, float, str):
    primitive_unmarshal[_t] = Contract(
        'marsh.schema.types.primitive:PrimitiveUnmarshalSchema.unmarshal',
        {'self': Obj(tys.primitive.PrimitiveUnmarshalSchema, default='val', default_factory='val', value=Const(_t)), 'element': 'val'}, runtime=False, variant=_t is not bool,
        name=f'PrimitiveUnmarshalSchema.unmarshal for {_t.__name__}', short=f'primitive_unmarshal_{_t.__name__}',
        cases=(lambda t: lambda a: leaf_cases(a, And(prim(a.element), c_ok(t, a.element)), lambda: c_val(t, a.element)))(_t))

none_unmarshal = Contract(
    'marsh.schema.types.none:NoneUnmarshalSchema.unmarshal', {'self': Obj(tys.none.NoneUnmarshalSchema, **DEF), 'element': 'val'}, ret='none', runtime=False,
    name='NoneUnmarshalSchema.unmarshal', short='none_unmarshal', cases=lambda a: [
        ret(Or(isN(a.element), missing(a.element)), ()), exc(Not(Or(isN(a.element), missing(a.element))), UnmarshalError, at(()))])

any_unmarshal = Contract(
    'marsh.schema.types.any:AnyUnmarshalSchema.unmarshal', {'self': Obj(tys.any.AnyUnmarshalSchema, **DEF), 'element': 'val'}, runtime=False, requires=lambda a: [wfv(a.element)],
    name='AnyUnmarshalSchema.unmarshal', short='any_unmarshal', cases=lambda a: leaf_cases(a, Not(hm(a.element)), a.element, MissingValueError))
