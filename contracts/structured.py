"""Contract of StructuredUnmarshalSchema.unmarshal: how entries, items, defaults
and arguments passed along are bound to parameters (property C11)."""
import pyvc  # noqa
import marsh
from marsh.schema import template as tpl
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, OtherError
from pyvc.contract import Contract, ret, exc, may, Loop, Const, Obj, Opq
from .kinds import missing, MISSING_STR
from .path import fields, parseable
from .schemas import U, Abstract, at, DEF, default_cases, has_def, sq_ok, sq_at, sq_bad, idx_fields, key_fields, schema_list, MarshError, UnmarshalError, MissingValueError

CS = Abstract('CS', [Val, LV, LE], 'what constructing a structured type from arguments does (type, positional, keyword arguments)')
construct_struct = Contract('marsh.schema.template.structured:StructuredUnmarshalSchema.construct', {'self': Obj(tpl.StructuredUnmarshalSchema, value='val'), 'args': 'lv', 'kwargs': 'le'}, runtime=False,
                            name='StructuredUnmarshalSchema.construct', short='construct_struct', cases=lambda a: CS.cases([a.self.value, a.args, a.kwargs]),
                            assumed='overridable: an unknown function of the type and the arguments')
closest = Contract('marsh.utils:get_closest_error_message', {'value': 'any', 'candidates': 'any', 'key': 'any'}, ret='str', cases=lambda a: [ret(True)], runtime=False,
                   assumed='used in error messages only: gives some text')

STAR = 42


def star1(n):
    return And(Not(empty(ofS(n))), Eq(sh(ofS(n)), STAR))


def star2(n):
    return And(star1(n), Not(empty(stl(ofS(n)))), Eq(sh(stl(ofS(n))), STAR))


def bare(n):
    """the name of a parameter without its stars"""
    return vstr(sstrip_r(sstrip_l(ofS(n), STAR), STAR))


sq_acc = Rec('sq_acc', [LV, Val, LV], LV, lambda s, acc: acc, lambda h, t, s, acc: sq_acc(t, s, lapp(acc, lcons(U.val(s, h), ()))))
vk_ok = Rec('vk_ok', [LE, Val], Bool, lambda s: True, lambda k, v, t, s: And(U.ok(s, v), vk_ok(t, s)))
vk_map = Rec('vk_map', [LE, Val, LE], LE, lambda s, acc: acc, lambda k, v, t, s, acc: vk_map(t, s, eset(acc, k, U.val(s, v))))
vk_badk = Rec('vk_badk', [LE, Val], Val, lambda s: VNone, lambda k, v, t, s: Ite(U.ok(s, v), lambda: vk_badk(t, s), k))
vk_badv = Rec('vk_badv', [LE, Val], Val, lambda s: VNone, lambda k, v, t, s: Ite(U.ok(s, v), lambda: vk_badv(t, s), v))
dk_map = Rec('dk_map', [LE, LE, LE], LE, lambda ed, acc: acc, lambda k, v, t, ed, acc: dk_map(t, ed, Ite(ehas(ed, k), acc, lambda: eset(acc, k, v), LE)))       # passed along and not given


def failed(marsh_, fs):
    return vmap(DICT, econs(vbool(marsh_), vseq(TUPLE, fs), ()))


def done(el, ed, args, kw):
    return vseq(TUPLE, lcons(vseq(LIST, args), lcons(vmap(DICT, kw), lcons(vseq(LIST, el), lcons(vmap(DICT, ed), ())))))


def _step(n, s, rest, el, ed, da, dk, args, kw, pos, key):
    """binding the parameter n (with schema s) and then the rest"""
    def variadic_keyword():
        k, v = vk_badk(ed, s), vk_badv(ed, s)
        return Ite(vk_ok(ed, s), lambda: so_run(rest, el, (), da, (), args, vk_map(ed, s, dk_map(dk, ed, kw)), pos, key),
                   lambda: failed(U.marsh(s, v), key_fields(bare(n), key_fields(k, U.path(s, v)))), Val)

    def variadic():
        b = sq_bad(el, s)
        return Ite(sq_ok(el, s), lambda: so_run(rest, (), ed, (), dk, lapp(sq_acc(el, s, args), da), kw, pos, key),
                   lambda: failed(U.marsh(s, b), key_fields(bare(n), idx_fields(sq_at(el, s, 0), U.path(s, b)))), Val)

    def positional():
        return Ite(U.ok(s, lh(el)), lambda: so_run(rest, lt(el), ed, tail0(da), edel(dk, n), lapp(args, lcons(U.val(s, lh(el)), ())), kw, pos, key),
                   lambda: failed(U.marsh(s, lh(el)), key_fields(bare(n), U.path(s, lh(el)))), Val)

    def named():
        hasda, hasdk, inel = Not(empty(da)), ehas(dk, n), ehas(ed, n)
        kw1 = Ite(And(hasda, Not(inel)), lambda: eset(kw, n, lh(da)), kw, LE)
        kw2 = Ite(And(hasdk, Not(inel)), lambda: eset(kw1, n, eget(dk, n)), kw1, LE)
        given = ehas(kw2, n)
        x = Ite(inel, lambda: eget(ed, n), MISSING_STR, Val)
        ed2 = Ite(given, ed, lambda: edel(ed, n), LE)
        kw3 = Ite(given, kw2, lambda: eset(kw2, n, U.val(s, x)), LE)
        p = lhas(pos, n)
        return Ite(Or(given, U.ok(s, x)),
                   lambda: Ite(p, lambda: so_run(rest, el, ed2, tail0(da), edel(dk, n), lapp(args, lcons(eget(kw3, n), ())), edel(kw3, n), pos, key),
                               lambda: so_run(rest, el, ed2, tail0(da), edel(dk, n), args, kw3, pos, key), Val),
                   lambda: failed(U.marsh(s, x), key_fields(bare(n), U.path(s, x))), Val)
    return Ite(star2(n), variadic_keyword, lambda: Ite(star1(n), variadic, lambda: Ite(And(Not(empty(el)), Not(lhas(key, n))), positional, named, Val), Val), Val)


def tail0(l):
    return Ite(empty(l), (), lambda: lt(l), LV)


# the result of binding all parameters: done(items left, entries left, args, kwargs), or failed(a MarshError?, fields of its path)
so_run = Rec('so_run', [LE, LV, LE, LV, LE, LV, LE, LV, LV], Val,
             lambda el, ed, da, dk, args, kw, pos, key: done(el, ed, args, kw), lambda n, s, t, *r: _step(n, s, t, *r))
sch = Rec('sch', [LE], Bool, lambda: True, lambda k, v, t: And(isS(k), isC(v), sch(t)))         # names and identities of schemas
STRUCT = dict(schemas='le', positional='tuplelv', keyword='tuplelv', **DEF)
VD = {'self': Obj(tpl.StructuredUnmarshalSchema, **STRUCT), 'args': 'val', 'kwargs': 'val'}

# the same parameter passed along by position and by name
vz = Rec('vz', [LV, LE, LV], Bool, lambda kw, key: False, lambda h, t, kw, key: And(Not(star1(lh(ofQ(h)))), Not(lhas(key, lh(ofQ(h)))), Or(ehas(kw, lh(ofQ(h))), vz(t, kw, key))))


def twice(s, da, dk):
    return And(Not(empty(da)), Not(empty(dk)), vz(lzip(ekeys(s.schemas), da), dk, s.keyword))


def passed(x, y):
    """what may be passed along: None or a sequence, None or a mapping"""
    return And(Or(isN(x), isQ(x)), Or(isN(y), isM(y)), wfv(y))


def da_of(x):
    return Ite(isQ(x), lambda: ofQ(x), (), LV)


def dk_of(x):
    return Ite(isM(x), lambda: ofM(x), (), LE)


validate_defaults = Contract(
    'marsh.schema.template.structured:StructuredUnmarshalSchema.validate_defaults', VD, ret='none', runtime=False, name='StructuredUnmarshalSchema.validate_defaults', short='validate_defaults',
    requires=lambda a: [sch(a.self.schemas), passed(a.args, a.kwargs)], cases=lambda a: [exc(twice(a.self, da_of(a.args), dk_of(a.kwargs)), TypeError), ret(Not(twice(a.self, da_of(a.args), dk_of(a.kwargs))), ())],
    loops=[Loop(lambda v: [Eq(vz(v.all, dk_of(v.a.kwargs), v.a.self.keyword), vz(v.rest, dk_of(v.a.kwargs), v.a.self.keyword)), zstr(v.rest)], name='parameters given by position')],
    lemmas=('zip_str',))
zstr = Rec('zstr', [LV], Bool, lambda: True, lambda h, t: And(isS(lh(ofQ(h))), zstr(t)))
Lemma('zip_str', [('e', LE), ('a', LV)], lambda e, a: Implies(sch(e), zstr(lzip(ekeys(e), a))), on='e', patterns=lambda e, a: [lzip(ekeys(e), a)])


def struct_cases(a, da, dk):
    s, x = a.self, a.element
    m = missing(x)
    dflt = And(m, has_def(s))
    cont = Or(m, isM(x), isQ(x))
    go = And(cont, Not(dflt))
    tw = twice(s, da, dk)
    ed = Ite(And(Not(m), isM(x)), lambda: ofM(x), (), LE)
    el = Ite(And(Not(m), isQ(x)), lambda: ofQ(x), (), LV)
    r = so_run(s.schemas, el, ed, da, dk, (), (), s.positional, s.keyword)
    run = And(go, Not(tw))
    ok = And(run, isQ(r))
    parts = ofQ(r)
    args, kw = ofQ(lnth(parts, 0)), ofM(lnth(parts, 1))
    el2, ed2 = ofQ(lnth(parts, 2)), ofM(lnth(parts, 3))
    used = And(empty(ed2), empty(el2))
    return default_cases(s, dflt) + [
        exc(And(Not(m), Not(isM(x)), Not(isQ(x))), UnmarshalError, at(()), name='not a container'),
        exc(And(go, tw), TypeError, name='passed along twice'),
        exc(And(run, isM(r), ofB(ekh(ofM(r)))), MarshError, at(ofQ(evh(ofM(r)))), name='an entry is rejected'),
        exc(And(run, isM(r), Not(ofB(ekh(ofM(r))))), OtherError, name='an entry fails'),
        exc(And(ok, Not(used)), UnmarshalError, at(()), name='unknown entries or surplus items'),
        exc(And(ok, used, Not(allstr(ekeys(kw)))), TypeError, name='keywords that are no strings'),
    ] + CS.cases([s.value, args, kw], And(ok, used, allstr(ekeys(kw))))


def su_dflt(v):
    """the values passed along, whether they are held in a list or in a tuple by now"""
    return v.list('default_args'), v.dict('default_kwargs')


def _state(v):
    return (v.list('element_list'), v.dict('element_dict'), *su_dflt(v), v.list('args'), v.dict('kwargs'))


def _init(v):
    a = v.a
    x = a.element
    m = missing(x)
    return (Ite(And(Not(m), isQ(x)), lambda: ofQ(x), (), LV), Ite(And(Not(m), isM(x)), lambda: ofM(x), (), LE), da_of(a.default_args), dk_of(a.default_kwargs), (), ())


def going(a):
    """the parameters are bound: no default is used, the element is a container"""
    x, m = a.element, missing(a.element)
    return And(Or(m, isM(x), isQ(x)), Not(And(m, has_def(a.self))), Not(twice(a.self, da_of(a.default_args), dk_of(a.default_kwargs))))


def _main_inv(v):
    s = v.a.self
    return [going(v.a), Eq(so_run(v.all, *_init(v), s.positional, s.keyword), so_run(v.rest, *_state(v), s.positional, s.keyword)), sch(v.rest), ewf(v.dict('element_dict')), ewf(v.dict('kwargs')), ewf(v.dict('default_kwargs'))]


def _dk_inv(v):
    e = v.entry
    return [Eq(ekeys(v.dict('default_kwargs')), v.rest), Eq(dk_map(e.dict('default_kwargs'), e.dict('element_dict'), e.dict('kwargs')), dk_map(v.dict('default_kwargs'), v.dict('element_dict'), v.dict('kwargs'))),
            ewf(v.dict('default_kwargs')), ewf(v.dict('kwargs'))]


def _ed_inv(v):
    e, s = v.entry, v.outer[1]
    a, b = e.dict('element_dict'), v.dict('element_dict')
    return [Eq(ekeys(b), v.rest), Eq(vk_map(a, s, e.dict('kwargs')), vk_map(b, s, v.dict('kwargs'))), Eq(vk_ok(a, s), vk_ok(b, s)), Eq(vk_badk(a, s), vk_badk(b, s)), Eq(vk_badv(a, s), vk_badv(b, s)), ewf(b), ewf(v.dict('kwargs'))]


def _el_inv(v):
    e, s = v.entry, v.outer[1]
    a, b = e.list('element_list'), v.list('element_list')
    return [Eq(llen(b) + v.idx, llen(a)), Eq(sq_ok(a, s), sq_ok(b, s)), Eq(sq_bad(a, s), sq_bad(b, s)), Eq(sq_at(a, s, 0), sq_at(b, s, v.idx)), Eq(sq_acc(a, s, e.list('args')), sq_acc(b, s, v.list('args')))]


structured_unmarshal = Contract(
    'marsh.schema.template.structured:StructuredUnmarshalSchema.unmarshal', {'self': Obj(tpl.StructuredUnmarshalSchema, **STRUCT), 'element': 'val', 'default_args': 'val', 'default_kwargs': 'val'}, runtime=False,
    name='StructuredUnmarshalSchema.unmarshal', short='structured_unmarshal', setup=lambda e, st: schema_list(e),
    requires=lambda a: [sch(a.self.schemas), wfv(a.element), passed(a.default_args, a.default_kwargs), ewf(a.self.schemas)], cases=lambda a: struct_cases(a, da_of(a.default_args), dk_of(a.default_kwargs)),
    loops=[Loop(_main_inv, name='parameters', cut=True), Loop(_dk_inv, name='keywords passed along'), Loop(_ed_inv, name='entries of **kwargs'), Loop(_el_inv, name='items of *args'), Loop(lambda v: [Eq(v.done, ())], name='entries left')],
    prune=True, lemmas=('zip_str', 'lapp_nil', 'lapp_assoc', 'eget_set', 'ehas_set', 'eset_set', 'ewf_set', 'ewf_del', 'ehas_del', 'eget_del', 'edel_none', 'llen_nonneg'))
