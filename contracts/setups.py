"""Contracts of how the schemas of structured types, callables, unions and literals
are set up: which parameters there are, in which order, what their schemas are made
for, and which of them are given by position or by name only (properties C08, C09,
C11, C12 and C13)."""
import inspect
import types
import typing
import pyvc  # noqa
import marsh
from marsh.schema import template as tpl, types as tys
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, OtherError, ObjCell, DictCell
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Const, Obj, Opq
from .kinds import missing, MISSING_STR
from .schemas import Abstract, at, key_fields, MarshError
from .path import fields, parseable
from .construct import NS_, ty_args, ty_org, ty_setup, init_setup, now, pred, ANY, item_of, parts_init, plain
from .schemas import is_un, org_setup

MISS = MISSING_STR
NSD = Abstract('NSDC', [Val, Val], 'what selecting and creating the schema of a type with a default does (type, default)')
HINTS = Abstract('HINTS', [Val], 'what resolving the annotations of a class or function does (marsh.utils.get_type_annotations)')
SIG = Abstract('SIG', [Val], 'what inspect.signature does')
ty_init = Unint('ty_init', [Val], Val, doc='the __init__ of a class')
ty_class = Unint('ty_class', [Val], Bool, doc='inspect.isclass')
p_ann = Unint('p_ann', [Val], Val, doc='the annotation of a parameter')
p_dflt = Unint('p_dflt', [Val], Val, doc='the default of a parameter')
p_kind = Unint('p_kind', [Val], Int, doc='the kind of a parameter, as a number')
has_fwd = Unint('has_fwd', [Val], Bool, doc='does a type contain forward references (marsh.utils.has_forward_ref)')
EMPTY_P = ('C', const_of(inspect.Parameter.empty))

pred('marsh.utils:has_forward_ref', has_fwd)


def hints_cases(a):
    return [ret(HINTS.ok(a.value), HINTS.val(a.value)), exc(Not(HINTS.ok(a.value)), OtherError)]


Contract('marsh.utils:get_type_annotations', {'value': 'val'}, ret='val', runtime=False, assumed='typing.get_type_hints: resolves annotations', short='get_type_annotations_c',
         cases=lambda a: [ret(HINTS.ok(a.value), vmap(DICT, ofM(HINTS.val(a.value)))), exc(Not(HINTS.ok(a.value)), OtherError)])


def set_up(e, st):
    init_setup(e, st)

    def new(e, st, args, kw):
        if len(args) != 1 or set(kw) - {'default'}:
            raise E.Unsupported('schema with options')
        if not kw:
            return NS_.outcomes(e, st, [e.to_val(st, args[0])])
        return NSD.outcomes(e, st, [e.to_val(st, args[0]), e.to_val(st, kw['default'])])
    e.models[marsh.schema.UnmarshalSchema] = new

    def signature(e, st, args, kw):
        for st1, r in SIG.outcomes(e, st, [e.to_val(st, args[0])]):
            if isinstance(r, ExcV):
                yield st1, r
                continue
            ps = e.alloc(st1, DictCell(ofM(SIG.val(e.to_val(st, args[0]))), 'dict', param=True))
            yield st1, e.alloc(st1, ObjCell(inspect.Signature, {'parameters': ps}, param=True))
    e.models[inspect.signature] = signature
    e.models[inspect.isclass] = lambda e, st, args, kw: iter([(st, e.norm(S('bool', ty_class(e.to_val(st, args[0])))))])
    const = lambda x: lambda e, st, v: iter([(st, x)])
    e.val_attrs['__init__'] = lambda e, st, v: iter([(st, S('val', ty_init(v.t)))])
    e.val_attrs['annotation'] = lambda e, st, v: iter([(st, S('val', p_ann(v.t)))])
    e.val_attrs['default'] = lambda e, st, v: iter([(st, S('val', p_dflt(v.t)))])
    e.val_attrs['kind'] = lambda e, st, v: iter([(st, S('int', p_kind(v.t)))])
    e.val_attrs['empty'] = const(K(inspect.Parameter.empty))
    for n in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD'):
        e.val_attrs[n] = const(S('int', int(getattr(inspect.Parameter, n))))


# ------------------------------------------------------------- callables
def hint(h, k, other):
    return Ite(ehas(h, k), lambda: eget(h, k), other, Val)


def ptype(h, k, p):
    """the type of a parameter: its annotation, resolved when it is text or refers to a type by name"""
    a = p_ann(p)
    return Ite(Or(Eq(a, EMPTY_P), isS(a)), lambda: hint(h, k, ANY), lambda: Ite(has_fwd(a), lambda: hint(h, k, a), a, Val), Val)


def pdef(p):
    return Ite(Eq(p_dflt(p), EMPTY_P), MISS, lambda: p_dflt(p), Val)


def pargs(h, k, p):
    return [ptype(h, k, p), pdef(p)]


ps_ok = Rec('ps_ok', [LE, LE], Bool, lambda h: True, lambda k, p, t, h: And(NSD.ok(*pargs(h, k, p)), ps_ok(t, h)))
ps_badk = Rec('ps_badk', [LE, LE], Val, lambda h: VNone, lambda k, p, t, h: Ite(NSD.ok(*pargs(h, k, p)), lambda: ps_badk(t, h), k))
ps_badp = Rec('ps_badp', [LE, LE], Val, lambda h: VNone, lambda k, p, t, h: Ite(NSD.ok(*pargs(h, k, p)), lambda: ps_badp(t, h), p))
ps_of = Rec('ps_of', [LE, LE, Int, LE], LE, lambda h, n, acc: acc, lambda k, p, t, h, n, acc: ps_of(t, h, n, Ite(Eq(p_kind(p), n), lambda: eset(acc, k, NSD.val(*pargs(h, k, p))), acc, LE)))
ps_var = Rec('ps_var', [LE, LE, Int, Val], Val, lambda h, n, acc: acc,
             lambda k, p, t, h, n, acc: ps_var(t, h, n, Ite(Eq(p_kind(p), n), lambda: vseq(TUPLE, lcons(k, lcons(NSD.val(*pargs(h, k, p)), ()))), acc, Val)))
pnames = Rec('pnames', [LE], Bool, lambda: True, lambda k, p, t: And(isS(k), pnames(t)))
POS, POK, VARP, KWO, VARK = range(5)


def c_parts(v):
    return [v.dict('positional'), v.dict('positional_or_keyword'), v.dict('keyword')]


def named(var):
    """nothing, or the name and the schema of a variadic parameter"""
    q = ofQ(var)
    return Or(isN(var), And(isQ(var), Eq(kindQ(var), TUPLE), Not(empty(q)), Not(empty(lt(q))), empty(lt(lt(q))), isS(lh(q))))


def two(v):
    return lh(ofQ(v)), lh(lt(ofQ(v)))


hints_of = Unint('hints_of', [Val], LE, doc='the resolved annotations of a callable (of the __init__ of a class), none when they can not be resolved')


def hints_def(e, st, a):
    t = lh(a.args)
    src = Ite(ty_class(t), lambda: ty_init(t), t, Val)
    return [Eq(hints_of(t), Ite(HINTS.ok(src), lambda: ofM(HINTS.val(src)), (), LE))]


def callable_parts(t):
    """the parameters of a callable, its resolved annotations, and the parameters of each kind"""
    ps = ofM(SIG.val(t))
    h = hints_of(t)
    return ps, h, [ps_of(ps, h, n, ()) for n in (POS, POK, KWO)], ps_var(ps, h, VARP, VNone), ps_var(ps, h, VARK, VNone)


def callable_schemas(t):
    ps, h, (pos, pok, kwo), vp, vk = callable_parts(t)
    star = isQ(vp)
    first = Ite(star, lambda: eupdate(pos, pok), pos, LE)
    s = eupdate(eupdate((), first), Ite(star, (), pok, LE))
    s = Ite(star, lambda: eset(s, vstr(app(L.S('*'), ofS(two(vp)[0]))), two(vp)[1]), s, LE)
    s = eupdate(s, kwo)
    s = Ite(isQ(vk), lambda: eset(s, vstr(app(L.S('**'), ofS(two(vk)[0]))), two(vk)[1]), s, LE)
    return first, kwo, s


def ps_cases(ps, h, pre):
    k, p = ps_badk(ps, h), ps_badp(ps, h)
    args = pargs(h, k, p)
    bad = And(pre, Not(ps_ok(ps, h)))
    return [exc(And(bad, NSD.marsh(*args)), MarshError, at(key_fields(k, NSD.path(*args))), name='a parameter has no schema'), exc(And(bad, Not(NSD.marsh(*args))), OtherError, name='the schema of a parameter fails')]


def callable_cases(a):
    t = lh(a.args)
    ps, h, *_ = callable_parts(t)
    return [exc(Not(SIG.ok(t)), ValueError, name='no signature'), ret(And(SIG.ok(t), ps_ok(ps, h)), (), name='set up')] + ps_cases(ps, h, SIG.ok(t))


def callable_final(e, st, out, a):
    if isinstance(out, ExcV):
        return []
    t = lh(a.args)
    first, kwo, s = callable_schemas(t)
    return [Eq(now(e, st, 'value'), t), Eq(now(e, st, 'schemas'), vmap(MAPO, s)), Eq(now(e, st, 'positional'), vseq(TUPLE, ekeys(first))), Eq(now(e, st, 'keyword'), vseq(TUPLE, ekeys(kwo)))]


def _callable_inv(v):
    t = lh(v.a.args)
    ps, h, *_ = callable_parts(t)
    out = [Eq(ps_ok(v.all, h), ps_ok(v.rest, h)), Eq(ps_badk(v.all, h), ps_badk(v.rest, h)), Eq(ps_badp(v.all, h), ps_badp(v.rest, h)), pnames(v.rest)]
    for n, x in zip((POS, POK, KWO), c_parts(v)):
        out += [Eq(ps_of(v.all, h, n, ()), ps_of(v.rest, h, n, x)), ewf(x)]
    for n, x in ((VARP, 'var_positional'), (VARK, 'var_keyword')):
        out += [Eq(ps_var(v.all, h, n, VNone), ps_var(v.rest, h, n, v.val(x))), named(v.val(x))]
    return out


INIT = {'args': 'tuplelv', 'kwargs': 'le'}
FIELDS = ('value', 'default', 'default_factory', 'schemas', 'positional', 'keyword')
plain_args = lambda a: [Not(empty(a.args)), empty(lt(a.args)), Eq(a.kwargs, ())]
callable_init = Contract(
    'marsh.schema.template.callable:CallableUnmarshalSchema.__init__', {'self': Obj(tpl.CallableUnmarshalSchema), **INIT}, ret='none', runtime=False, setup=set_up, name='CallableUnmarshalSchema.__init__', short='callable_init',
    cases=callable_cases, final=callable_final, extra=hints_def, modifies=FIELDS, requires=lambda a: plain_args(a) + [pnames(ofM(SIG.val(lh(a.args)))), ewf(ofM(SIG.val(lh(a.args))))],
    loops=[Loop(_callable_inv, name='parameters')], lemmas=('ewf_set',))


# ------------------------------------------------------------- one schema for every type of a list
ns_all = Rec('ns_all', [LV], Bool, lambda: True, lambda h, t: And(NS_.ok(h), ns_all(t)))
ns_vals = Rec('ns_vals', [LV], LV, lambda: (), lambda h, t: lcons(NS_.val(h), ns_vals(t)))
ns_bad = Rec('ns_bad', [LV], Val, lambda: VNone, lambda h, t: Ite(NS_.ok(h), lambda: ns_bad(t), h))
Lemma('ns_vals_app', [('a', LV), ('b', LV)], lambda a, b: And(ns_vals(lapp(a, b)) == lapp(ns_vals(a), ns_vals(b)), ns_all(lapp(a, b)) == And(ns_all(a), ns_all(b))), on='a', patterns=lambda a, b: [ns_vals(lapp(a, b))])


def all_cases(l):
    return [ret(ns_all(l), (), name='set up'), may(Not(ns_all(l)), exc(True, Exception), name='a part has no schema')]


def set_fields(**fs):
    """the value is remembered and the fields are set"""
    def final(e, st, out, a):
        if isinstance(out, ExcV):
            return []
        t = lh(a.args)
        return [Eq(now(e, st, 'value'), t)] + [Eq(now(e, st, n), f(t)) for n, f in fs.items()]
    return final


def init_of(path, cls, short, cases, fs, setup=set_up, **kw):
    return Contract(path + '.__init__', {'self': Obj(cls), **INIT}, ret='none', runtime=False, setup=setup, name=path.split(':')[1] + '.__init__', short=short, cases=cases, final=set_fields(**fs),
                    modifies=('value', 'default', 'default_factory', *fs), requires=plain_args, **kw)


union_init = init_of('marsh.schema.types.union:UnionUnmarshalSchema', tys.union.UnionUnmarshalSchema, 'union_init', lambda a: all_cases(ty_args(lh(a.args))),
                     dict(schemas=lambda t: vseq(TUPLE, ns_vals(ty_args(t)))), lemmas=('ns_vals_app', 'lapp_nil'),
                     loops=[Loop(lambda v: [Eq(v.acc, ns_vals(v.done)), ns_all(v.done)], name='types')])


def match_of(path, short, f):
    return Contract(path + '.match', {'cls': Opq('cls'), 'value': 'val'}, ret='bool', runtime=False, name=path.split(':')[1] + '.match', short=short, setup=org_setup, lemmas=('llen_nonneg',), cases=lambda a: [ret(True, f(a.value))])


def is_lit(t):
    """is it a Literal[...]"""
    return Or(*[Eq(ty_org(t), ('C', const_of(x))) for x in marsh.utils._LiteralTypes])


is_literal = Contract('marsh.utils:is_literal', {'value': 'val'}, ret='bool', runtime=False, setup=org_setup, cases=lambda a: [ret(True, is_lit(a.value))])
union_match = match_of('marsh.schema.types.union:UnionUnmarshalSchema', 'union_match', lambda t: And(is_un(t), Not(empty(ty_args(t)))))
literal_match = match_of('marsh.schema.types.literal:LiteralUnmarshalSchema', 'literal_match', lambda t: And(is_lit(t), llen(ty_args(t)) > 1))
literal_value_match = match_of('marsh.schema.types.literal:LiteralValueUnmarshalSchema', 'literal_value_match', lambda t: And(is_lit(t), llen(ty_args(t)) == 1))
set_type = lambda t: Ite(empty(ty_args(t)), ANY, lambda: lh(ty_args(t)), Val)
set_init = parts_init('marsh.schema.types.set:SetUnmarshalSchema', tys.set.SetUnmarshalSchema, 'set_init', dict(value_schema=set_type), also=[item_of])

# ------------------------------------------------------------- literals
LV_ = Abstract('LITC', [Val], 'what creating the schema of a literal of one value does (the type Literal[value])')
type_of = Unint('type_of_', [Val], Val, doc='the class of a value')
lit1 = Unint('lit1', [Val], Val, doc='Literal[value]')
lit_all = Rec('lit_all', [LV], Bool, lambda: True, lambda h, t: And(LV_.ok(lit1(h)), lit_all(t)))
lit_vals = Rec('lit_vals', [LV], LV, lambda: (), lambda h, t: lcons(LV_.val(lit1(h)), lit_vals(t)))
Lemma('lit_vals_app', [('a', LV), ('b', LV)], lambda a, b: And(lit_vals(lapp(a, b)) == lapp(lit_vals(a), lit_vals(b)), lit_all(lapp(a, b)) == And(lit_all(a), lit_all(b))), on='a', patterns=lambda a, b: [lit_vals(lapp(a, b))])


def lit_setup(e, st):
    set_up(e, st)
    e.models[tys.literal.LiteralValueUnmarshalSchema] = lambda e, st, args, kw: LV_.outcomes(e, st, [e.to_val(st, args[0])])
    e.models[('subscript', typing.Literal)] = lambda e, st, i: iter([(st, S('val', lit1(e.to_val(st, i))))])


literal_init = init_of('marsh.schema.types.literal:LiteralUnmarshalSchema', tys.literal.LiteralUnmarshalSchema, 'literal_init',
                       lambda a: [ret(lit_all(ty_args(lh(a.args))), (), name='set up'), may(Not(lit_all(ty_args(lh(a.args)))), exc(True, Exception), name='a value has no schema')],
                       dict(schemas=lambda t: vseq(TUPLE, lit_vals(ty_args(t)))), lemmas=('lit_vals_app', 'lapp_nil'), setup=lit_setup,
                       loops=[Loop(lambda v: [Eq(v.acc, lit_vals(v.done)), lit_all(v.done)], name='values')])
us_init = Contract('marsh.schema.core.unmarshal:UnmarshalSchema.__init__', {'self': Obj(marsh.schema.UnmarshalSchema), 'args': 'tuplelv', 'default': 'val', 'default_factory': 'val', 'kwargs': 'le'}, ret='none', runtime=False, variant=True,
                   name='UnmarshalSchema.__init__', short='us_init', modifies=('value', 'default', 'default_factory'), requires=plain_args, cases=lambda a: [ret(True, ())],
                   final=lambda e, st, out, a: [Eq(now(e, st, 'value'), lh(a.args)), Eq(now(e, st, 'default'), a.default), Eq(now(e, st, 'default_factory'), a.default_factory)])

# ------------------------------------------------------------- schemas that delegate to the schema of another type
NSF = Abstract('NSFC', [Val, Val], 'what selecting and creating the schema of a type with a default factory does (type, default factory)')


def opt_setup(e, st):
    set_up(e, st)

    def new(e, st, args, kw):
        if len(args) != 1 or set(kw) - {'default', 'default_factory'} or len(kw) > 1:
            raise E.Unsupported('schema with options')
        t = e.to_val(st, args[0])
        if not kw:
            return NS_.outcomes(e, st, [t])
        (n, x), = kw.items()
        return (NSD if n == 'default' else NSF).outcomes(e, st, [t, e.to_val(st, x)])
    e.models[marsh.schema.UnmarshalSchema] = new
    e.models[('subscript', typing.Union)] = lambda e, st, i: iter([(st, S('val', union_of(e.to_val(st, i))))])
    e.val_attrs['__bound__'] = lambda e, st, v: iter([(st, S('val', tv_bound(v.t)))])
    e.val_attrs['__constraints__'] = lambda e, st, v: iter([(st, S('val', vseq(TUPLE, tv_cons(v.t))))])
    e.models[type] = lambda e, st, args, kw: iter([(st, S('val', type_of(e.to_val(st, args[0]))))])


union_of = Unint('union_of', [Val], Val, doc='Union of the types of a tuple')
tv_bound = Unint('tv_bound', [Val], Val, doc='the bound of a type variable')
tv_cons = Unint('tv_cons', [Val], LV, doc='the constraints of a type variable')


def options(which):
    """the keyword arguments of a schema: nothing, or one of the two kinds of default"""
    def make(e, st, name):
        if which is None:
            return E.PyDict({}), None
        t = z3const(name)
        return E.PyDict({which: S('val', t)}), t
    return make


def z3const(name):
    import z3
    return z3.Const(name, Val)


def delegating(path, cls, short, to, requires, extra_cases=lambda a: [], **more):
    """__init__ of a schema that hands its options to the schema of another type"""
    for which, kind in ((None, NS_), ('default', NSD), ('default_factory', NSF)):
        args = lambda a, which=which: [to(a.value)] + ([] if which is None else [a.kwargs])

        def final(e, st, out, a, kind=kind, args=args, which=which):
            if isinstance(out, ExcV):
                return []
            return [Eq(now(e, st, 'value'), a.value), Eq(now(e, st, 'schema'), kind.val(*args(a))),
                    Eq(now(e, st, 'default'), a.kwargs if which == 'default' else MISS), Eq(now(e, st, 'default_factory'), a.kwargs if which == 'default_factory' else MISS)]

        def cases(a, kind=kind, args=args):
            ok = kind.ok(*args(a))
            return [ret(ok, (), name='set up'), may(Not(ok), exc(True, Exception), name='no schema')]
        Contract(path + '.__init__', {'self': Obj(cls), 'value': 'val', 'args': Const(()), 'kwargs': options(which)}, ret='none', runtime=False, variant=True, setup=opt_setup,
                 name=f'{path.split(":")[1]}.__init__ ({which or "no options"})', short=f'{short}_{which or "plain"}', cases=cases, final=final, modifies=('value', 'default', 'default_factory', 'schema'), requires=requires)


delegating('marsh.schema.types.annotated:AnnotatedUnmarshalSchema', tys.annotated.AnnotatedUnmarshalSchema, 'annotated_init', lambda v: lh(ty_args(v)), lambda a: [Not(empty(ty_args(a.value)))])


def tv_type(v):
    """what a type variable stands for"""
    c = tv_cons(v)
    return Ite(empty(c), lambda: tv_bound(v), lambda: Ite(Eq(llen(c), 1), lambda: lh(c), lambda: union_of(vseq(TUPLE, c)), Val), Val)


delegating('marsh.schema.types.typevar:TypeVarUnmarshalSchema', tys.typevar.TypeVarUnmarshalSchema, 'typevar_init', tv_type, lambda a: [])
literal_value_init = init_of('marsh.schema.types.literal:LiteralValueUnmarshalSchema', tys.literal.LiteralValueUnmarshalSchema, 'literal_value_init',
                             lambda a: [exc(empty(ty_args(lh(a.args))), IndexError), ret(And(Not(empty(ty_args(lh(a.args)))), NS_.ok(type_of(lh(ty_args(lh(a.args)))))), ()),
                                        may(And(Not(empty(ty_args(lh(a.args)))), Not(NS_.ok(type_of(lh(ty_args(lh(a.args))))))), exc(True, Exception))],
                             dict(literal_value=lambda t: lh(ty_args(t)), schema=lambda t: NS_.val(type_of(lh(ty_args(t))))), setup=opt_setup)

# ------------------------------------------------------------- tuples
tup_l = Rec('tup_l', [LV], LV, lambda: (), lambda h, t: Ite(Eq(h, vseq(TUPLE, ())), lambda: tup_l(t), lambda: lcons(h, tup_l(t))))
tup_s = Rec('tup_s', [LV, Int, LE], LE, lambda i, acc: acc, lambda h, t, i, acc: tup_s(t, i + 1, eset(acc, vstr(py_str(vint(i))), NS_.val(h))))
Lemma('tup_l_app', [('a', LV), ('b', LV)], lambda a, b: tup_l(lapp(a, b)) == lapp(tup_l(a), tup_l(b)), on='a', patterns=lambda a, b: [tup_l(lapp(a, b))])


def tup_items(a):
    return tup_l(ty_args(lh(a.args)))


tuple_init = init_of('marsh.schema.types.tuple:TupleUnmarshalSchema', tys.tuple.TupleUnmarshalSchema, 'tuple_init', lambda a: all_cases(tup_items(a)),
                     dict(schemas=lambda t: vmap(DICT, tup_s(tup_l(ty_args(t)), 0, ())), positional=lambda t: vseq(TUPLE, ekeys(tup_s(tup_l(ty_args(t)), 0, ())))), lemmas=('tup_l_app', 'lapp_nil'),
                     loops=[Loop(lambda v: [Eq(v.acc, tup_l(v.done))], name='types'), Loop(lambda v: [Eq(tup_s(v.all, 0, ()), tup_s(v.rest, v.idx, v.acc)), Eq(ns_all(v.all), ns_all(v.rest))], name='items')])
tuple_construct = Contract('marsh.schema.types.tuple:TupleUnmarshalSchema.construct', {'self': Obj(tys.tuple.TupleUnmarshalSchema), 'args': 'tuplelv', 'kwargs': options(None)}, runtime=False, variant=True, name='TupleUnmarshalSchema.construct', short='tuple_construct',
                           cases=lambda a: [ret(True, vseq(TUPLE, a.args))])
# ------------------------------------------------------------- named tuples
nt_fields = Unint('nt_fields', [Val], LV, doc='the names of the fields of a named tuple type, in order')
nt_dflts = Unint('nt_dflts', [Val], LE, doc='the defaults of the fields of a named tuple type')


def nt_args(h, d, k):
    return [hint(h, k, ANY), Ite(ehas(d, k), lambda: eget(d, k), MISS, Val)]


nt_ok = Rec('nt_ok', [LV, LE, LE], Bool, lambda h, d: True, lambda k, t, h, d: And(NSD.ok(*nt_args(h, d, k)), nt_ok(t, h, d)))
nt_bad = Rec('nt_bad', [LV, LE, LE], Val, lambda h, d: VNone, lambda k, t, h, d: Ite(NSD.ok(*nt_args(h, d, k)), lambda: nt_bad(t, h, d), k))
nt_map = Rec('nt_map', [LV, LE, LE, LE], LE, lambda h, d, acc: acc, lambda k, t, h, d, acc: nt_map(t, h, d, eset(acc, k, NSD.val(*nt_args(h, d, k)))))


def nt_setup(e, st):
    set_up(e, st)
    e.val_attrs['_fields'] = lambda e, st, v: iter([(st, S('val', vseq(TUPLE, nt_fields(v.t))))])
    e.val_attrs['_field_defaults'] = lambda e, st, v: iter([(st, S('val', vmap(DICT, nt_dflts(v.t))))])


def nt_cases(a):
    t = lh(a.args)
    h, d, l = ofM(HINTS.val(t)), nt_dflts(t), nt_fields(t)
    ok = HINTS.ok(t)
    bad = And(ok, Not(nt_ok(l, h, d)))
    k = nt_bad(l, h, d)
    args = nt_args(h, d, k)
    return [exc(Not(ok), OtherError, name='annotations'), ret(And(ok, nt_ok(l, h, d)), (), name='set up'), exc(And(bad, NSD.marsh(*args)), MarshError, at(key_fields(k, NSD.path(*args))), name='a field has no schema'),
            exc(And(bad, Not(NSD.marsh(*args))), OtherError, name='the schema of a field fails')]


def _nt_inv(v):
    t = lh(v.a.args)
    h, d = ofM(HINTS.val(t)), nt_dflts(t)
    return [Eq(nt_ok(v.all, h, d), nt_ok(v.rest, h, d)), Eq(nt_bad(v.all, h, d), nt_bad(v.rest, h, d)), Eq(nt_map(v.all, h, d, ()), nt_map(v.rest, h, d, v.dict('schemas'))), allstr(v.rest)]


namedtuple_init = Contract(
    'marsh.schema.types.namedtuple:NamedTupleUnmarshalSchema.__init__', {'self': Obj(tys.namedtuple.NamedTupleUnmarshalSchema), **INIT}, ret='none', runtime=False, setup=nt_setup, name='NamedTupleUnmarshalSchema.__init__',
    short='namedtuple_init', cases=nt_cases, final=set_fields(schemas=lambda t: vmap(MAPO, nt_map(nt_fields(t), ofM(HINTS.val(t)), nt_dflts(t), ()))), modifies=('value', 'default', 'default_factory', 'schemas'),
    requires=lambda a: plain_args(a) + [allstr(nt_fields(lh(a.args)))], loops=[Loop(_nt_inv, name='fields')])

# ------------------------------------------------------------- typed dicts
td_req = Unint('td_req', [Val], LV, doc='the required keys of a typed dict, in order')
td_opt = Unint('td_opt', [Val], LV, doc='the optional keys of a typed dict, in order')
TD = tys.typeddict.TypedDictUnmarshalSchema
SENT = z3const('sentinel')
tr_ok = Rec('tr_ok', [LV, LE], Bool, lambda h: True, lambda k, t, h: And(NS_.ok(eget(h, k)), tr_ok(t, h)))
tr_map = Rec('tr_map', [LV, LE, LE], LE, lambda h, acc: acc, lambda k, t, h, acc: tr_map(t, h, eset(acc, k, NS_.val(eget(h, k)))))
to_ok = Rec('to_ok', [LV, LE, Val], Bool, lambda h, s: True, lambda k, t, h, s: And(NSD.ok(eget(h, k), s), to_ok(t, h, s)))
to_map = Rec('to_map', [LV, LE, Val, LE], LE, lambda h, s, acc: acc, lambda k, t, h, s, acc: to_map(t, h, s, eset(acc, k, NSD.val(eget(h, k), s))))
all_in = Rec('all_in', [LV, LE], Bool, lambda h: True, lambda k, t, h: And(ehas(h, k), all_in(t, h)))


def td_setup(e, st):
    set_up(e, st)
    me = lambda st: e.start.frames[0]['self'] if hasattr(e, 'start') else None
    e.attr_models[(TD, 'required_keys')] = lambda e, st, v: iter([(st, e.norm(S('val', vseq(LIST, td_req(e.to_val(st, st.heap[v.loc].fields['value']))))))])
    e.attr_models[(TD, 'optional_keys')] = lambda e, st, v: iter([(st, e.norm(S('val', vseq(LIST, td_opt(e.to_val(st, st.heap[v.loc].fields['value']))))))])
    e.models[tys.typeddict._Sentinel] = lambda e, st, args, kw: iter([(st, S('val', SENT))])


def td_parts(t):
    h = ofM(HINTS.val(t))
    return h, td_req(t), td_opt(t)


def td_cases(a):
    t = lh(a.args)
    h, r, o = td_parts(t)
    ok = And(HINTS.ok(t), tr_ok(r, h), to_ok(o, h, SENT))
    return [ret(ok, (), name='set up'), may(Not(ok), exc(True, Exception), name='an entry has no schema')]


def td_schemas(t):
    h, r, o = td_parts(t)
    return vmap(MAPO, eupdate(tr_map(r, h, ()), to_map(o, h, SENT, ())))


def _td_inv(okf, mapf):
    def inv(v):
        t = lh(v.a.args)
        h = ofM(HINTS.val(t))
        return [Eq(okf(v.all, h), okf(v.rest, h)), Eq(mapf(v.all, h, ()), mapf(v.rest, h, v.acc)), all_in(v.rest, h)]
    return inv


typeddict_init = Contract(
    'marsh.schema.types.typeddict:TypedDictUnmarshalSchema.__init__', {'self': Obj(TD), **INIT}, ret='none', runtime=False, setup=td_setup, name='TypedDictUnmarshalSchema.__init__', short='typeddict_init',
    cases=td_cases, final=set_fields(schemas=td_schemas, _sentinel=lambda t: SENT), modifies=('value', 'default', 'default_factory', 'schemas', '_sentinel'),
    requires=lambda a: plain_args(a) + [all_in(td_req(lh(a.args)), ofM(HINTS.val(lh(a.args)))), all_in(td_opt(lh(a.args)), ofM(HINTS.val(lh(a.args))))],
    loops=[Loop(_td_inv(tr_ok, tr_map), name='required keys'), Loop(_td_inv(lambda l, h: to_ok(l, h, SENT), lambda l, h, acc: to_map(l, h, SENT, acc)), name='optional keys')])

# what is left of the arguments: the optional entries that have not been given are left out
pk, pv = lambda h: lh(ofQ(h)), lambda h: lh(lt(ofQ(h)))
td_bad = Rec('td_bad', [LV, LV, Val], Bool, lambda opt, s: False, lambda h, t, opt, s: Or(And(Eq(pv(h), s), Not(lhas(opt, pk(h)))), td_bad(t, opt, s)))
td_drop = Rec('td_drop', [LV, LV, Val, LE], LE, lambda opt, s, acc: acc, lambda h, t, opt, s, acc: td_drop(t, opt, s, Ite(Eq(pv(h), s), lambda: edel(acc, pk(h)), acc, LE)))
ispair = lambda h: And(isQ(h), Not(empty(ofQ(h))), Not(empty(lt(ofQ(h)))), empty(lt(lt(ofQ(h)))))
pkeys = Rec('pkeys', [LV], LV, lambda: (), lambda h, t: lcons(pk(h), pkeys(t)))
held = Rec('held', [LV, LE], Bool, lambda m: True, lambda h, t, m: And(ispair(h), ehas(m, pk(h)), Not(lhas(pkeys(t), pk(h))), held(t, m)))        # pairs with different keys, all of them there
Lemma('held_del', [('l', LV), ('m', LE), ('k', Val)], lambda l, m, k: Implies(And(ewf(m), held(l, m), Not(lhas(pkeys(l), k))), held(l, edel(m, k))), on='l', patterns=lambda l, m, k: [held(l, edel(m, k))], uses=('ehas_del',))
Lemma('held_cons', [('l', LV), ('m', LE), ('k', Val), ('v', Val)], lambda l, m, k, v: Implies(held(l, m), held(l, LE.econs(k, v, m))), on='l', patterns=lambda l, m, k, v: [held(l, LE.econs(k, v, m))])
Lemma('pkeys_items', [('m', LE)], lambda m: pkeys(eitems(m)) == ekeys(m), on='m', patterns=lambda m: [pkeys(eitems(m))])
Lemma('ehas_keys', [('m', LE), ('k', Val)], lambda m, k: lhas(ekeys(m), k) == ehas(m, k), on='m', patterns=lambda m, k: [lhas(ekeys(m), k)])
Lemma('held_items', [('m', LE)], lambda m: Implies(ewf(m), held(eitems(m), m)), on='m', patterns=lambda m: [held(eitems(m), m)], uses=('held_cons', 'pkeys_items', 'ehas_keys'))


parted = Rec('parted', [LV, LV, LV], Bool, lambda opt, req: True, lambda h, t, opt, req: And(Eq(lhas(opt, pk(h)), Not(lhas(req, pk(h)))), parted(t, opt, req)))     # every key is either optional or required


def td_given(a):
    return eupdate(epairs(lzip(ekeys(a.self.schemas), a.args), ()), a.kwargs)


def _tdc_inv(v):
    a = v.a
    opt, s = td_opt(a.self.value), a.self._sentinel
    m = v.dict('mapping')
    return [Eq(td_bad(v.all, opt, s), td_bad(v.rest, opt, s)), Eq(td_drop(v.all, opt, s, td_given(a)), td_drop(v.rest, opt, s, m)), ewf(m), held(v.rest, m), parted(v.rest, opt, td_req(a.self.value))]


def td_all(a):
    return eitems(td_given(a))


Lemma('ewf_update', [('a', LE), ('b', LE)], lambda a, b: Implies(ewf(a), ewf(eupdate(a, b))), on='b', patterns=lambda a, b: [ewf(eupdate(a, b))], uses=('ewf_set',))
Lemma('ewf_pairs', [('l', LV), ('a', LE)], lambda l, a: Implies(ewf(a), ewf(epairs(l, a))), on='l', patterns=lambda l, a: [ewf(epairs(l, a))], uses=('ewf_set',))
typeddict_construct = Contract(
    'marsh.schema.types.typeddict:TypedDictUnmarshalSchema.construct', {'self': Obj(TD, value='val', schemas='le', _sentinel='val'), 'args': 'tuplelv', 'kwargs': 'le'}, runtime=False, variant=True, setup=td_setup,
    name='TypedDictUnmarshalSchema.construct', short='typeddict_construct', requires=lambda a: [isC(a.self._sentinel), allstr(ekeys(a.kwargs)), parted(td_all(a), td_opt(a.self.value), td_req(a.self.value))],
    cases=lambda a: [exc(td_bad(td_all(a), td_opt(a.self.value), a.self._sentinel), marsh.errors.MissingValueError),
                     ret(Not(td_bad(td_all(a), td_opt(a.self.value), a.self._sentinel)), lambda: vmap(DICT, td_drop(td_all(a), td_opt(a.self.value), a.self._sentinel, td_given(a))))],
    loops=[Loop(_tdc_inv, name='entries')], lemmas=('held_del', 'held_items', 'ewf_update', 'ewf_pairs', 'ewf_del', 'ewf_set'))

# ------------------------------------------------------------- dataclasses
NS3 = Abstract('NS3C', [Val, Val, Val], 'what selecting and creating the schema of a type with a default and a default factory does')
dc_fields = Unint('dc_fields', [Val], LV, doc='dataclasses.fields')
dc_all = Unint('dc_all', [Val], LE, doc='the fields of a dataclass, also the pseudo fields (__dataclass_fields__)')
f_name = Unint('f_name', [Val], Str, doc='the name of a field')
f_type = Unint('f_type', [Val], Val, doc='the type of a field')
f_kind = Unint('f_kind', [Val], Val, doc='the kind of a field: an ordinary one, a class variable or an InitVar')
f_init = Unint('f_init', [Val], Bool, doc='is the field a parameter of __init__')
f_kw = Unint('f_kw', [Val], Bool, doc='is the field keyword only')
f_dflt = Unint('f_dflt', [Val], Val, doc='the default of a field')
f_fact = Unint('f_fact', [Val], Val, doc='the default factory of a field')
is_iv = Unint('is_iv', [Val], Bool, doc='is it an InitVar')
iv_type = Unint('iv_type', [Val], Val, doc='the type of an InitVar')
import dataclasses  # noqa: E402
DCM = ('C', const_of(dataclasses.MISSING))
DC = tys.dataclass.DataclassUnmarshalSchema
INITVAR = ('C', const_of(dataclasses._FIELD_INITVAR))


def dc_setup(e, st):
    set_up(e, st)

    def new(e, st, args, kw):
        if len(args) != 1 or set(kw) != {'default', 'default_factory'}:
            raise E.Unsupported('schema with other options')
        return NS3.outcomes(e, st, [e.to_val(st, args[0]), e.to_val(st, kw['default']), e.to_val(st, kw['default_factory'])])
    e.models[marsh.schema.UnmarshalSchema] = new
    e.models[dataclasses.fields] = lambda e, st, args, kw: iter([(st, S('val', vseq(TUPLE, dc_fields(e.to_val(st, args[0])))))])
    for n, s, f in (('name', 'str', f_name), ('type', 'val', f_type), ('_field_type', 'val', f_kind), ('init', 'bool', f_init), ('kw_only', 'bool', f_kw), ('default', 'val', f_dflt), ('default_factory', 'val', f_fact)):
        e.val_attrs[n] = lambda e, st, v, s=s, f=f: iter([(st, S(s, f(v.t)))])
    e.val_attrs['type'] = lambda e, st, v: ((st1, S('val', iv_type(v.t) if b else f_type(v.t))) for st1, b in e.fork(st, is_iv(v.t)))
    e.val_attrs['__dataclass_fields__'] = lambda e, st, v: iter([(st, S('val', vmap(DICT, dc_all(v.t))))])
    e.models[('isinstance', dataclasses.InitVar)] = lambda e, st, v: is_iv(e.to_val(st, v))


def is_param(t):
    return lambda h: Or(lhas(dc_fields(t), h), Eq(f_kind(h), INITVAR))


dp_list = Rec('dp_list', [LE, Val], LV, lambda t: (), lambda k, h, r, t: Ite(is_param(t)(h), lambda: lcons(h, dp_list(r, t)), lambda: dp_list(r, t)))
Lemma('dp_list_app', [('a', LE), ('b', LE), ('t', Val)], lambda a, b, t: dp_list(eapp(a, b), t) == lapp(dp_list(a, t), dp_list(b, t)), on='a', patterns=lambda a, b, t: [dp_list(eapp(a, b), t)])
get_init_fields = Contract(
    'marsh.schema.types.dataclass:get_init_fields', {'dataclass': 'val'}, runtime=False, setup=dc_setup, short='get_init_fields', cases=lambda a: [ret(True, vseq(TUPLE, dp_list(dc_all(a.dataclass), a.dataclass)))],
    loops=[Loop(lambda v: [Eq(v.acc, dp_list(v.done, v.a.dataclass))], name='fields')], lemmas=('dp_list_app', 'lapp_nil'))


def res1(h, k, t):
    """a type that refers to others by name, resolved if possible"""
    x = hint(h, k, t)
    return Ite(has_fwd(t), lambda: Ite(is_iv(x), t, lambda: x, Val), t, Val)


def dc_type(h, f):
    t = res1(h, vstr(f_name(f)), f_type(f))
    return Ite(is_iv(t), lambda: res1(h, vstr(f_name(f)), iv_type(t)), t, Val)


def dc_args(h, f):
    return [dc_type(h, f), Ite(Eq(f_dflt(f), DCM), MISS, lambda: f_dflt(f), Val), Ite(Eq(f_fact(f), DCM), MISS, lambda: f_fact(f), Val)]


def unresolved(h, f):
    """the type is still text"""
    return Or(isS(res1(h, vstr(f_name(f)), f_type(f))), isS(dc_type(h, f)))


dc_fok = lambda h, f: Or(Not(f_init(f)), And(Not(unresolved(h, f)), NS3.ok(*dc_args(h, f))))
dc_ok = Rec('dc_ok', [LV, LE], Bool, lambda h: True, lambda f, t, h: And(dc_fok(h, f), dc_ok(t, h)))
dc_bad = Rec('dc_bad', [LV, LE], Val, lambda h: VNone, lambda f, t, h: Ite(dc_fok(h, f), lambda: dc_bad(t, h), f))
dc_map = Rec('dc_map', [LV, LE, LE], LE, lambda h, acc: acc, lambda f, t, h, acc: dc_map(t, h, Ite(f_init(f), lambda: eset(acc, vstr(f_name(f)), NS3.val(*dc_args(h, f))), acc, LE)))
dc_kw = Rec('dc_kw', [LV], LV, lambda: (), lambda f, t: Ite(f_kw(f), lambda: lcons(vstr(f_name(f)), dc_kw(t)), lambda: dc_kw(t)))
Lemma('dc_kw_app', [('a', LV), ('b', LV)], lambda a, b: dc_kw(lapp(a, b)) == lapp(dc_kw(a), dc_kw(b)), on='a', patterns=lambda a, b: [dc_kw(lapp(a, b))])
dc_hints = Unint('dc_hints', [Val], LE, doc='the resolved annotations of a dataclass, none when they can not be resolved')


def dc_def(e, st, a):
    import z3
    from .construct import ty_cls
    t = lh(a.args)
    x = z3.Const('x', Val)
    return [Eq(dc_hints(t), Ite(HINTS.ok(ty_cls(t)), lambda: ofM(HINTS.val(ty_cls(t))), (), LE)), z3.ForAll([x], z3.Not(is_iv(iv_type(x))), patterns=[iv_type(x)]), z3.ForAll([x], z3.Implies(is_iv(x), z3.Not(Val.is_VStr(x))), patterns=[is_iv(x)])]


no_iv = Rec('no_iv', [LV], Bool, lambda: True, lambda f, t: And(Not(is_iv(f)), no_iv(t)))      # fields are no InitVars themselves


def dc_params(t):
    return dp_list(dc_all(t), t)


def dc_cases(a):
    t = lh(a.args)
    h, l = dc_hints(t), dc_params(t)
    f = dc_bad(l, h)
    args = dc_args(h, f)
    at_field = lambda rest: at(Ite(empty(f_name(f)), rest, lambda: lcons(vstr(f_name(f)), rest), LV))
    no = Not(dc_ok(l, h))
    return [ret(dc_ok(l, h), (), name='set up'), exc(And(no, unresolved(h, f)), MarshError, at_field(()), name='a type that is text'),
            exc(And(no, Not(unresolved(h, f)), NS3.marsh(*args)), MarshError, at_field(NS3.path(*args)), name='a field has no schema'), exc(And(no, Not(unresolved(h, f)), Not(NS3.marsh(*args))), OtherError, name='the schema of a field fails')]


def _dc_inv(v):
    h = dc_hints(lh(v.a.args))
    return [Eq(dc_ok(v.all, h), dc_ok(v.rest, h)), Eq(dc_bad(v.all, h), dc_bad(v.rest, h)), Eq(dc_map(v.all, h, ()), dc_map(v.rest, h, v.dict('schemas'))), no_iv(v.rest)]


dataclass_init = Contract(
    'marsh.schema.types.dataclass:DataclassUnmarshalSchema.__init__', {'self': Obj(DC), **INIT}, ret='none', runtime=False, setup=dc_setup, name='DataclassUnmarshalSchema.__init__', short='dataclass_init',
    cases=dc_cases, extra=dc_def, final=set_fields(schemas=lambda t: vmap(MAPO, dc_map(dc_params(t), dc_hints(t), ())), keyword=lambda t: vseq(TUPLE, dc_kw(dc_params(t)))), modifies=('value', 'default', 'default_factory', 'schemas', 'keyword'),
    requires=lambda a: plain_args(a) + [no_iv(dc_params(lh(a.args)))], loops=[Loop(_dc_inv, name='fields'), Loop(lambda v: [Eq(v.acc, dc_kw(v.done))], name='keyword only')], lemmas=('dc_kw_app', 'lapp_nil'))

# ------------------------------------------------------------- enums
EV_ = Abstract('ENUMC', [Val], 'what creating the schema of a member of an enum does')
ev_all = Rec('ev_all', [LV], Bool, lambda: True, lambda h, t: And(EV_.ok(h), ev_all(t)))
ev_vals = Rec('ev_vals', [LV], LV, lambda: (), lambda h, t: lcons(EV_.val(h), ev_vals(t)))
Lemma('ev_vals_app', [('a', LV), ('b', LV)], lambda a, b: And(ev_vals(lapp(a, b)) == lapp(ev_vals(a), ev_vals(b)), ev_all(lapp(a, b)) == And(ev_all(a), ev_all(b))), on='a', patterns=lambda a, b: [ev_vals(lapp(a, b))])


def enum_setup(e, st):
    set_up(e, st)
    e.models[tys.enum.EnumValueUnmarshalSchema] = lambda e, st, args, kw: EV_.outcomes(e, st, [e.to_val(st, args[0])])


def enum_init_cases(a):
    l = ofQ(lh(a.args))
    return [ret(ev_all(l), (), name='set up'), may(Not(ev_all(l)), exc(True, Exception), name='a member has no schema')]


# the enum is iterated over: it is the sequence of its members here
enum_init = Contract(
    'marsh.schema.types.enum:EnumUnmarshalSchema.__init__', {'self': Obj(tys.enum.EnumUnmarshalSchema), **INIT}, ret='none', runtime=False, setup=enum_setup, name='EnumUnmarshalSchema.__init__', short='enum_init',
    cases=enum_init_cases, final=set_fields(schemas=lambda t: vseq(TUPLE, ev_vals(ofQ(t)))), modifies=('value', 'default', 'default_factory', 'schemas'), requires=lambda a: plain_args(a) + [isQ(lh(a.args))],
    lemmas=('ev_vals_app', 'lapp_nil'), loops=[Loop(lambda v: [Eq(v.acc, ev_vals(v.done)), ev_all(v.done)], name='members')])
