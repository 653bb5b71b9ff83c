"""Contracts of how the schemas of containers are set up and what they construct
(property C10): which types the items, keys and values of a type have, and what
becomes of the results.  A type is an unknown value here: its origin, arguments
and bases are unknown functions of it."""
import collections
import collections.abc
import inspect
import types
import typing
import pyvc  # noqa
import marsh
from marsh.schema import template as tpl, types as tys
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, OtherError
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Const, Obj, Opq
from .kinds import missing, MISSING_STR
from .schemas import org_setup, ty_ann, ty_org, ty_args, plain, Abstract, at, CQ, CM, DEF, MarshError

ty_cls = Unint('ty_cls', [Val], Val, doc='the class of a type (marsh.utils.get_type)')
ty_bases = Unint('ty_bases', [Val], LV, doc='the generic bases of a class, in order (__orig_bases__)')
ty_hasb = Unint('ty_hasb', [Val], Bool, doc='does the type have __orig_bases__')
ty_seq = Unint('ty_seq', [Val], Bool, doc='is it a sequence type (marsh.utils.is_sequence_type)')
ty_map = Unint('ty_map', [Val], Bool, doc='is it a mapping type (marsh.utils.is_mapping_type)')
ty_dd = Unint('ty_dd', [Val], Bool, doc='is it a defaultdict type')
ty_abs = Unint('ty_abs', [Val], Bool, doc='is the class abstract')
NS_ = Abstract('NSC', [Val], 'what selecting and creating the schema of a type does')
CALL = Abstract('CALL', [Val, Val], 'what calling a class with one container does (class, container)')


def pred(path, f, arg='value', ret_='bool', doc='typing introspection'):
    return Contract(path, {arg: 'val'}, ret=ret_, runtime=False, assumed=doc, short=path.split(':')[1] + '_c', cases=lambda a: [ret(True, f(getattr(a, arg)))])


pred('marsh.utils:get_type', ty_cls, ret_='val')
pred('marsh.utils:is_sequence_type', ty_seq)
pred('marsh.utils:is_mapping_type', ty_map)


def ty_setup(e, st):
    org_setup(e, st)

    def bases(e, st, v):
        for st1, b in e.fork(st, ty_hasb(v.t)):
            if b:
                yield st1, e.norm(S('val', vseq(TUPLE, ty_bases(v.t))))
            else:
                yield e.throw(st1, AttributeError)
    e.val_attrs['__orig_bases__'] = bases
    e.models[inspect.isabstract] = lambda e, st, args, kw: iter([(st, e.norm(S('bool', ty_abs(e.to_val(st, args[0])))))])

    e.models[types.MappingProxyType] = lambda e, st, args, kw: iter([(st, e.norm(S('val', vmap(MAPO, ofM(e.to_val(st, args[0]))))))])     # a view of a dict that nothing else holds

    def anycall(e, st, f, args, kw):
        if kw or len(args) != 1:
            raise E.Unsupported('call of a class')
        return CALL.outcomes(e, st, [f.t, e.to_val(st, args[0])])
    e.call_models['anycall'] = anycall


ELLIPSIS = ('C', const_of(...))


def one_item(h):
    """is it a sequence type that says what its items are"""
    l = ty_args(h)
    return And(ty_seq(h), Or(Eq(llen(l), 1), And(Eq(llen(l), 2), lhas(l, ELLIPSIS))))


first_type = Rec('first_type', [LV], Val, lambda: VNone, lambda h, t: Ite(Eq(h, ELLIPSIS), lambda: first_type(t), h))
has_type = Rec('has_type', [LV], Bool, lambda: False, lambda h, t: Or(Not(Eq(h, ELLIPSIS)), has_type(t)))
ANY = ('C', const_of(typing.Any))
seq_item = Rec('seq_item', [LV], Val, lambda: ANY, lambda h, t: Ite(And(one_item(h), has_type(ty_args(h))), lambda: first_type(ty_args(h)), lambda: seq_item(t)))


def bases_of(t):
    return Ite(ty_hasb(t), lambda: ty_bases(t), (), LV)


inspect_sequence_type = Contract(
    'marsh.utils:inspect_sequence_type', {'sequence_type': 'val'}, runtime=False, setup=ty_setup,
    cases=lambda a: [ret(True, seq_item(lcons(plain(a.sequence_type), bases_of(plain(a.sequence_type)))))],
    loops=[Loop(lambda v: [Eq(seq_item(v.all), seq_item(v.rest))], name='bases'), Loop(lambda v: [Eq(has_type(v.all), has_type(v.rest)), Eq(first_type(v.all), first_type(v.rest))], name='arguments')])

two = lambda h: And(ty_map(h), Eq(llen(ty_args(h)), 2))
map_key = Rec('map_key', [LV], Val, lambda: ANY, lambda h, t: Ite(two(h), lambda: lnth(ty_args(h), 0), lambda: map_key(t)))
map_val = Rec('map_val', [LV], Val, lambda: ANY, lambda h, t: Ite(two(h), lambda: lnth(ty_args(h), 1), lambda: map_val(t)))


def map_bases(t):
    """the type, its class and the generic bases of the type, or else of its class"""
    c = ty_cls(t)
    return lcons(t, lcons(c, Ite(ty_hasb(t), lambda: ty_bases(t), lambda: bases_of(c), LV)))


inspect_mapping_type = Contract(
    'marsh.utils:inspect_mapping_type', {'mapping_type': 'val'}, runtime=False, setup=ty_setup,
    cases=lambda a: [ret(True, vseq(TUPLE, lcons(map_key(map_bases(plain(a.mapping_type))), lcons(map_val(map_bases(plain(a.mapping_type))), ()))))],
    loops=[Loop(lambda v: [Eq(map_key(v.all), map_key(v.rest)), Eq(map_val(v.all), map_val(v.rest))], name='bases')])

# ------------------------------------------------------------- what is constructed
tpl_seq = Contract('marsh.schema.template.sequence:SequenceUnmarshalSchema.construct', {'self': Obj(tpl.SequenceUnmarshalSchema, value='val'), 'value': 'lv'}, runtime=False, variant=True, setup=ty_setup,
                   name='template.SequenceUnmarshalSchema.construct', short='tpl_seq', cases=lambda a: CALL.cases([ty_cls(a.self.value), vseq(LIST, a.value)]))
tpl_map = Contract('marsh.schema.template.mapping:MappingUnmarshalSchema.construct', {'self': Obj(tpl.MappingUnmarshalSchema, value='val'), 'value': 'le'}, runtime=False, variant=True, setup=ty_setup,
                   name='template.MappingUnmarshalSchema.construct', short='tpl_map', cases=lambda a: CALL.cases([ty_cls(a.self.value), vmap(DICT, a.value)]))
CSEQ, CMSEQ, CMAP, CMMAP = (('C', const_of(getattr(collections.abc, n))) for n in ('Sequence', 'MutableSequence', 'Mapping', 'MutableMapping'))


def seq_construct(a):
    c = ty_cls(a.self.value)
    s, m = Eq(c, CSEQ), Eq(c, CMSEQ)
    return [ret(s, vseq(TUPLE, a.value), name='Sequence'), ret(And(Not(s), m), vseq(LIST, a.value), name='MutableSequence')] + CQ.cases([a.self.value, a.value], And(Not(s), Not(m)))


def map_construct(a):
    c = ty_cls(a.self.value)
    s, m = Eq(c, CMAP), Eq(c, CMMAP)
    return [ret(s, vmap(MAPO, a.value), name='Mapping'), ret(And(Not(s), m), vmap(DICT, a.value), name='MutableMapping')] + CM.cases([a.self.value, a.value], And(Not(s), Not(m)))


types_seq = Contract('marsh.schema.types.sequence:SequenceUnmarshalSchema.construct', {'self': Obj(tys.sequence.SequenceUnmarshalSchema, value='val'), 'value': 'lv'}, runtime=False, setup=ty_setup,
                     name='types.SequenceUnmarshalSchema.construct', short='types_seq', cases=seq_construct)
types_map = Contract('marsh.schema.types.mapping:MappingUnmarshalSchema.construct', {'self': Obj(tys.mapping.MappingUnmarshalSchema, value='val'), 'value': 'le'}, runtime=False, setup=ty_setup,
                     requires=lambda a: [ewf(a.value)], name='types.MappingUnmarshalSchema.construct', short='types_map', cases=map_construct)
gen_seq = Contract('marsh.schema.types.generic:GenericSequenceUnmarshalSchema.construct', {'self': Obj(tys.generic.GenericSequenceUnmarshalSchema, value='val'), 'value': 'lv'}, runtime=False, setup=ty_setup,
                   name='GenericSequenceUnmarshalSchema.construct', short='gen_seq',
                   cases=lambda a: [ret(ty_abs(ty_cls(a.self.value)), vseq(LIST, a.value), name='abstract')] + CQ.cases([a.self.value, a.value], Not(ty_abs(ty_cls(a.self.value)))))
gen_map = Contract('marsh.schema.types.generic:GenericMappingUnmarshalSchema.construct', {'self': Obj(tys.generic.GenericMappingUnmarshalSchema, value='val'), 'value': 'le'}, runtime=False, setup=ty_setup,
                   requires=lambda a: [ewf(a.value)], name='GenericMappingUnmarshalSchema.construct', short='gen_map',
                   cases=lambda a: [ret(ty_abs(ty_cls(a.self.value)), vmap(DICT, a.value), name='abstract')] + CM.cases([a.self.value, a.value], Not(ty_abs(ty_cls(a.self.value)))))

# ------------------------------------------------------------- which schemas the parts get
VALUE = vstr(L.S('value'))


def init_setup(e, st):
    ty_setup(e, st)

    def new(e, st, args, kw):
        if len(args) != 1 or kw:
            raise E.Unsupported('schema with options')
        return NS_.outcomes(e, st, [e.to_val(st, args[0])])
    e.models[marsh.schema.UnmarshalSchema] = new


def now(e, st, field):
    return e.to_val(st, st.heap[e.start.frames[0]['self'].loc].fields[field])


def parts_init(path, cls, short, parts, also=()):
    """__init__ gives every part the schema of its type, and remembers the type itself"""
    def final(e, st, out, a):
        if isinstance(out, ExcV):
            return []
        t = lh(a.args)
        return [Eq(now(e, st, 'value'), t)] + [Eq(now(e, st, n), NS_.val(f(t))) for n, f in parts.items()]

    def cases(a):
        ok = And(*[NS_.ok(f(lh(a.args))) for f in (*parts.values(), *also)])
        return [ret(ok, (), name='set up'), may(Not(ok), exc(True, Exception), name='a part has no schema')]
    return Contract(path + '.__init__', {'self': Obj(cls), 'args': 'tuplelv', 'kwargs': 'le'}, ret='none', runtime=False, variant=True, setup=init_setup, name=path.split(':')[1] + '.__init__', short=short, cases=cases, final=final,
                    modifies=('value', 'default', 'default_factory', *parts), requires=lambda a: [Not(empty(a.args)), Eq(a.kwargs, ())])


item_of = lambda t: seq_item(lcons(plain(t), bases_of(plain(t))))
key_of = lambda t: map_key(map_bases(plain(t)))
val_of = lambda t: map_val(map_bases(plain(t)))
seq_init = parts_init('marsh.schema.types.sequence:SequenceUnmarshalSchema', tys.sequence.SequenceUnmarshalSchema, 'seq_init', dict(value_schema=item_of))
gen_seq_init = parts_init('marsh.schema.types.generic:GenericSequenceUnmarshalSchema', tys.generic.GenericSequenceUnmarshalSchema, 'gen_seq_init', dict(value_schema=item_of))
map_init = parts_init('marsh.schema.types.mapping:MappingUnmarshalSchema', tys.mapping.MappingUnmarshalSchema, 'map_init', dict(key_schema=key_of, value_schema=val_of))
gen_map_init = parts_init('marsh.schema.types.generic:GenericMappingUnmarshalSchema', tys.generic.GenericMappingUnmarshalSchema, 'gen_map_init', dict(key_schema=key_of, value_schema=val_of))

# ------------------------------------------------------------- absent entries of a defaultdict
from .schemas import U
DDM = 'marsh.schema.types.defaultdict'
from marsh.schema.types import defaultdict as ddm
UNSET = ('C', const_of(ddm.InitType._sentinel))
EMPTY = vstr(L.S(''))
TRIES = (MISSING_STR, vint(0), EMPTY, VNone)


def init_cases(a):
    s, x = a.self.schema, a.self.input
    known = Not(Eq(x, UNSET))
    out = U.cases([s, x], known)
    before = Not(known)
    for y in TRIES:
        out.append(ret(And(before, U.ok(s, y)), U.val(s, y), name='the first input that gives a value'))
        before = And(before, Not(U.ok(s, y)))
    return out + [exc(before, MarshError, name='nothing gives a value')]


def init_final(e, st, out, a):
    s, x, now_ = a.self.schema, a.self.input, now(e, st, 'input')
    first = UNSET
    for y in reversed(TRIES):
        first = Ite(U.ok(s, y), y, first, Val)
    return [Eq(now_, Ite(Eq(x, UNSET), first, x, Val))]


init_call = Contract(DDM + ':InitType.__call__', {'self': Obj(ddm.InitType, schema=Opq('schema'), input='val')}, runtime=False, name='InitType.__call__', short='init_call', cases=init_cases, final=init_final, modifies=('input',))
dd_of = Unint('dd_of', [Val, LE], Val, doc='the defaultdict with a factory and the entries of a dict')


def dd_setup(e, st):
    ty_setup(e, st)
    e.models[collections.defaultdict] = lambda e, st, args, kw: iter([(st, S('val', dd_of(e.to_val(st, args[0]), ofM(e.to_val(st, args[1])))))])


dd_construct = Contract(DDM + ':DefaultDictUnmarshalSchema.construct', {'self': Obj(ddm.DefaultDictUnmarshalSchema, value='val', initializer='val'), 'value': 'le'}, runtime=False, setup=dd_setup,
                        name='DefaultDictUnmarshalSchema.construct', short='dd_construct', requires=lambda a: [ewf(a.value)], cases=lambda a: [ret(True, dd_of(a.self.initializer, a.value))])


def dd_init_setup(e, st):
    init_setup(e, st)
    e.val_attrs['value'] = lambda e, st, v: iter([(st, e.norm(S('val', lh(lt(ofQ(v.t))))))])          # inspect_mapping_type gives (key, value)


ANY_T = ('C', const_of(typing.Any))


def dd_final(e, st, out, a):
    if isinstance(out, ExcV):
        return []
    t = lh(a.args)
    ob = [Eq(now(e, st, 'value'), t), Eq(now(e, st, 'key_schema'), NS_.val(key_of(t))), Eq(now(e, st, 'value_schema'), NS_.val(val_of(t)))]
    init = st.heap[e.start.frames[0]['self'].loc].fields['initializer']
    any_ = Eq(val_of(t), ANY_T)
    cell = st.heap[init.loc] if isinstance(init, R) else None
    if cell is not None and getattr(cell, 'cls', None) is ddm.InitType:
        return ob + [Not(any_), Eq(e.to_val(st, cell.fields['schema']), NS_.val(val_of(t))), Eq(e.to_val(st, cell.fields['input']), UNSET)]
    made = [e.to_val(st2, v) if not isinstance(v, ExcV) else UNSET for st2, v in e.call(st.fork(), init, [], {})]
    return ob + [any_] + [Eq(v, VNone) for v in made]


dd_init = Contract(DDM + ':DefaultDictUnmarshalSchema.__init__', {'self': Obj(ddm.DefaultDictUnmarshalSchema), 'args': 'tuplelv', 'kwargs': 'le'}, ret='none', runtime=False, variant=True, setup=dd_init_setup,
                   name='DefaultDictUnmarshalSchema.__init__', short='dd_init', cases=map_init.cases, final=dd_final, modifies=('value', 'default', 'default_factory', 'key_schema', 'value_schema', 'initializer'), requires=lambda a: [Not(empty(a.args)), Eq(a.kwargs, ())])
