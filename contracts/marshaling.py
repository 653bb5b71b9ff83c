"""Contracts of marshaling (property C15): every schema gives a plain element
that holds exactly the data of its value.  How a nested value is marshaled is an
unknown partial function M here (marsh.marshal selects the schema at run time);
every contract below determines the result in terms of M."""
import dataclasses
import enum
import pyvc  # noqa
import marsh
from marsh.schema import types as tys
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, OtherError, BMeth
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Const, Obj, Opq
from .kinds import missing
from .schemas import Abstract, at, MarshError, UnmarshalError, UN, schema_list, U, key_fields
from .cast import prim

MarshalError = marsh.errors.MarshalError
M = Abstract('M', [Val], 'what marshaling a nested value does')
marshal = Contract('marsh._functional:marshal', {'value': 'val'}, runtime=False, short='marshal', cases=lambda a: M.cases([a.value]),
                   assumed='marsh.marshal of a nested value: an unknown partial function (which schema marshals a value is property C17, what each schema gives is proved here)')

# ------------------------------------------------------------- sequences, iterables
ml_ok = Rec('ml_ok', [LV], Bool, lambda: True, lambda h, t: And(M.ok(h), ml_ok(t)))
ml_map = Rec('ml_map', [LV], LV, lambda: (), lambda h, t: lcons(M.val(h), ml_map(t)))
ml_bad = Rec('ml_bad', [LV], Val, lambda: VNone, lambda h, t: Ite(M.ok(h), lambda: ml_bad(t), h))
Lemma('ml_map_app', [('a', LV), ('b', LV)], lambda a, b: ml_map(lapp(a, b)) == lapp(ml_map(a), ml_map(b)), on='a', patterns=lambda a, b: [ml_map(lapp(a, b))])


def fails(pre, bad):
    """the failure of marshaling the value bad"""
    return [exc(And(pre, M.marsh(bad)), MarshError, at(M.path(bad)), name='a nested value is rejected'), exc(And(pre, Not(M.marsh(bad))), OtherError, name='a nested value fails')]


def ml_cases(xs):
    return [ret(ml_ok(xs), lambda: vseq(TUPLE, ml_map(xs)))] + fails(Not(ml_ok(xs)), ml_bad(xs))


Lemma('ldrop_step', [('l', LV), ('i', Int)], lambda l, i: Implies(And(0 <= i, i < llen(l)), ldrop(l, i) == lcons(lnth(l, i), ldrop(l, i + 1))), on='l', patterns=lambda l, i: [ldrop(l, i)], uses=('llen_nonneg', 'ldrop_0'))
Lemma('ldrop_end', [('l', LV), ('i', Int)], lambda l, i: Implies(i >= llen(l), ldrop(l, i) == LV.lnil), on='l', patterns=lambda l, i: [ldrop(l, i)], uses=('llen_nonneg',))
Lemma('ldrop_0', [('l', LV), ('i', Int)], lambda l, i: Implies(i <= 0, ldrop(l, i) == l), on='l', patterns=lambda l, i: [ldrop(l, i)])
SEQ = ('ldrop_0', 'ldrop_step', 'ldrop_end', 'lapp_assoc', 'lapp_nil', 'llen_nonneg')


def rest(v, xs):
    """what is left to do of the list xs, whether the loop runs over its items or its indices"""
    return ldrop(xs, v.idx) if isinstance(v.all, tuple) and len(v.all) == 2 else v.rest


def _ml_inv(v):
    xs = value_list(v.a.self.value)
    r = rest(v, xs)
    return [Eq(lapp(v.list('result'), ml_map(r)), ml_map(xs)), Eq(ml_ok(xs), ml_ok(r)), Eq(ml_bad(xs), ml_bad(r))]


def value_list(x):
    return ofQ(x) if isz(x) and x.sort() == Val else x


iterable_marshal = Contract(
    'marsh.schema.types.generic:GenericIterableMarshalSchema.marshal', {'self': Obj(tys.generic.GenericIterableMarshalSchema, value='tuplelv')}, runtime=False,
    name='GenericIterableMarshalSchema.marshal', short='iterable_marshal', cases=lambda a: ml_cases(a.self.value), loops=[Loop(_ml_inv, name='items')], lemmas=SEQ)
sequence_marshal = Contract(
    'marsh.schema.types.generic:GenericSequenceMarshalSchema.marshal', {'self': Obj(tys.generic.GenericSequenceMarshalSchema, value='val')}, runtime=False, requires=lambda a: [isQ(a.self.value)],
    name='GenericSequenceMarshalSchema.marshal', short='sequence_marshal', cases=lambda a: ml_cases(ofQ(a.self.value)), loops=[Loop(_ml_inv, name='items')], lemmas=SEQ)

# ------------------------------------------------------------- mappings
is_enum = Unint('is_enum', [Val], Bool, doc='is the value a member of an enum')


def special(k):
    """keys that are marshaled themselves"""
    return Or(is_enum(k), isY(k))


def mkey(k):
    return vstr(Ite(special(k), lambda: py_str(M.val(k)), lambda: py_str(k), Str))


mm_ok = Rec('mm_ok', [LE], Bool, lambda: True, lambda k, v, t: And(M.ok(v), Or(Not(special(k)), M.ok(k)), mm_ok(t)))
mm_map = Rec('mm_map', [LE, LE], LE, lambda acc: acc, lambda k, v, t, acc: mm_map(t, eset(acc, mkey(k), M.val(v))))
mm_bad = Rec('mm_bad', [LE], Val, lambda: VNone, lambda k, v, t: Ite(M.ok(v), lambda: Ite(Or(Not(special(k)), M.ok(k)), lambda: mm_bad(t), k), v))


def mapping_setup(e, st):
    e.models[('isinstance', enum.Enum)] = lambda e, st, v: is_enum(v.t)


def _mm_inv(v):
    xs = ofM(v.a.self.value)
    return [Eq(mm_map(xs, ()), mm_map(rest_e(v), v.dict('result'))), Eq(mm_ok(xs), mm_ok(rest_e(v))), Eq(mm_bad(xs), mm_bad(rest_e(v)))]


def rest_e(v):
    return v.rest


mapping_marshal = Contract(
    'marsh.schema.types.generic:GenericMappingMarshalSchema.marshal', {'self': Obj(tys.generic.GenericMappingMarshalSchema, value='val')}, runtime=False, setup=mapping_setup,
    requires=lambda a: [isM(a.self.value), wfv(a.self.value)], name='GenericMappingMarshalSchema.marshal', short='mapping_marshal',
    cases=lambda a: [ret(mm_ok(ofM(a.self.value)), lambda: vmap(DICT, mm_map(ofM(a.self.value), ())))] + fails(Not(mm_ok(ofM(a.self.value))), mm_bad(ofM(a.self.value))),
    loops=[Loop(_mm_inv, name='entries')], lemmas=('eget_mid', 'ehas_app', 'wfve_app', 'lapp_nil'))

# ------------------------------------------------------------- leaves
primitive_marshal = Contract(
    'marsh.schema.types.primitive:PrimitiveMarshalSchema.marshal', {'self': Obj(tys.primitive.PrimitiveMarshalSchema, value='val')}, runtime=False, requires=lambda a: [prim(a.self.value)],
    name='PrimitiveMarshalSchema.marshal', short='primitive_marshal', cases=lambda a: [ret(True, a.self.value)])
none_marshal = Contract('marsh.schema.types.none:NoneMarshalSchema.marshal', {'self': Obj(tys.none.NoneMarshalSchema, value='val')}, runtime=False,
                        name='NoneMarshalSchema.marshal', short='none_marshal', ret='none', cases=lambda a: [ret(True, ())])

# ------------------------------------------------------------- objects with attributes
attr = Unint('attr', [Val, Val], Val, doc='the attribute of an object (object, name)')
fname = Unint('fname', [Val], Val, doc='the name of a dataclass field')
finit = Unint('finit', [Val], Bool, doc='is the dataclass field given to __init__')
dfields = Unint('dfields', [Val], LV, doc='the fields of a dataclass instance, in order (dataclasses.fields)')
nt_fields = Unint('nt_fields', [Val], LV, doc='the field names of a namedtuple, in order')


def attrs(e, st):
    """unknown objects have attributes, which are read only"""
    def named(n):
        e.val_attrs[n] = lambda e, st, v: iter([(st, e.norm(S('val', attr(v.t, vstr(L.S(n))))))])
    for n in ('value', ):
        named(n)
    old = e.models[getattr]

    def _getattr(e, st, args, kw):
        n = e.norm(args[1])
        if isinstance(n, S) and len(args) == 2:
            yield st, e.norm(S('val', attr(e.to_val(st, args[0]), e.to_val(st, n))))
            return
        yield from old(e, st, args, kw)
    e.models[getattr] = _getattr


def dataclass_setup(e, st):
    attrs(e, st)

    def fields(e, st, args, kw):
        yield st, S('val', vseq(TUPLE, dfields(e.to_val(st, args[0]))))
    e.models[dataclasses.fields] = fields
    e.val_attrs['name'] = lambda e, st, v: iter([(st, e.norm(S('val', fname(v.t))))])
    e.val_attrs['init'] = lambda e, st, v: iter([(st, S('bool', finit(v.t)))])


dc_ok = Rec('dc_ok', [LV, Val], Bool, lambda o: True, lambda h, t, o: And(Or(Not(finit(h)), M.ok(attr(o, fname(h)))), dc_ok(t, o)))
dc_map = Rec('dc_map', [LV, Val, LE], LE, lambda o, acc: acc, lambda h, t, o, acc: dc_map(t, o, Ite(finit(h), lambda: eset(acc, fname(h), M.val(attr(o, fname(h)))), acc, LE)))
dc_bad = Rec('dc_bad', [LV, Val], Val, lambda o: VNone, lambda h, t, o: Ite(Or(Not(finit(h)), M.ok(attr(o, fname(h)))), lambda: dc_bad(t, o), lambda: attr(o, fname(h))))


def _dc_inv(v):
    o = v.a.self.value
    fs = dfields(o)
    return [Eq(dc_map(fs, o, ()), dc_map(v.rest, o, v.dict('result'))), Eq(dc_ok(fs, o), dc_ok(v.rest, o)), Eq(dc_bad(fs, o), dc_bad(v.rest, o))]


def dc_cases(a):
    o = a.self.value
    fs = dfields(o)
    return [ret(dc_ok(fs, o), lambda: vmap(DICT, dc_map(fs, o, ())))] + fails(Not(dc_ok(fs, o)), dc_bad(fs, o))


dataclass_marshal = Contract(
    'marsh.schema.types.dataclass:DataclassMarshalSchema.marshal', {'self': Obj(tys.dataclass.DataclassMarshalSchema, value='val')}, runtime=False, setup=dataclass_setup,
    name='DataclassMarshalSchema.marshal', short='dataclass_marshal', cases=dc_cases, loops=[Loop(_dc_inv, name='fields')])

nt_ok = Rec('nt_ok', [LV], Bool, lambda: True, lambda h, t: And(M.ok(lh(lt(ofQ(h)))), nt_ok(t)))
nt_map = Rec('nt_map', [LV, LE], LE, lambda acc: acc, lambda h, t, acc: nt_map(t, eset(acc, lh(ofQ(h)), M.val(lh(lt(ofQ(h)))))))
nt_bad = Rec('nt_bad', [LV], Val, lambda: VNone, lambda h, t: Ite(M.ok(lh(lt(ofQ(h)))), lambda: nt_bad(t), lambda: lh(lt(ofQ(h)))))


def nt_pairs(o):
    return lzip(nt_fields(o), ofQ(o))


def nt_setup(e, st):
    e.val_attrs['_fields'] = lambda e, st, v: iter([(st, S('val', vseq(TUPLE, nt_fields(v.t))))])


namedtuple_marshal = Contract(
    'marsh.schema.types.namedtuple:NamedTupleMarshalSchema.marshal', {'self': Obj(tys.namedtuple.NamedTupleMarshalSchema, value='val')}, runtime=False, setup=nt_setup,
    requires=lambda a: [isQ(a.self.value)], name='NamedTupleMarshalSchema.marshal', short='namedtuple_marshal',
    cases=lambda a: [ret(nt_ok(nt_pairs(a.self.value)), lambda: vmap(DICT, nt_map(nt_pairs(a.self.value), ())))] + fails(Not(nt_ok(nt_pairs(a.self.value))), nt_bad(nt_pairs(a.self.value))),
    loops=[Loop(lambda v: [Eq(nt_map(v.all, ()), nt_map(v.rest, v.dict('result'))), Eq(nt_ok(v.all), nt_ok(v.rest)), Eq(nt_bad(v.all), nt_bad(v.rest))], name='fields')])


def enum_setup(e, st):
    e.val_attrs['name'] = lambda e, st, v: iter([(st, e.norm(S('val', attr(v.t, vstr(L.S('name'))))))])
    e.val_attrs['value'] = lambda e, st, v: iter([(st, e.norm(S('val', attr(v.t, vstr(L.S('value'))))))])


enum_marshal = Contract(
    'marsh.schema.types.enum:EnumValueMarshalSchema.marshal', {'self': Obj(tys.enum.EnumValueMarshalSchema, value='val')}, runtime=False, setup=enum_setup,
    name='EnumValueMarshalSchema.marshal', short='enum_marshal', cases=lambda a: [ret(True, attr(a.self.value, vstr(L.S('name'))))])

# ------------------------------------------------------------- registered components
MS = Abstract('MS', [Val], 'what marshal() of a nested marshal schema does')


def ms_setup(e, st):
    e.meth_models[('mschema', 'marshal')] = lambda e, st, r, args, kw: MS.outcomes(e, st, [r.t])


NAME = vstr(L.S('name'))


def ns_cases(a):
    s = a.self
    ok, x = MS.ok(s.schema), MS.val(s.schema)
    good = And(isM(x), Not(ehas(ofM(x), NAME)))
    return [ret(And(ok, good), lambda: vmap(DICT, eset(ofM(x), NAME, s.name)), name='tagged with its name'),
            exc(And(ok, Not(good)), MarshalError, at(()), name='not a mapping, or with a field called name')] + MS.cases([s.schema], ok=x)[1:]


namespace_marshal = Contract(
    'marsh.schema.types.namespace:NamespaceMarshalSchema.marshal', {'self': Obj(tys.namespace.NamespaceMarshalSchema, value='val', schema=Opq('mschema'), name='val')}, runtime=False, setup=ms_setup,
    extra=lambda e, st, a: [wfv(MS.val(a.self.schema))], requires=lambda a: [isS(a.self.name)],
    name='NamespaceMarshalSchema.marshal', short='namespace_marshal', cases=ns_cases)

# ------------------------------------------------------------- the API
made = Unint('made', [Val], Val, doc='the schema that is made for a type')
made_ok = Unint('made_ok', [Val], Bool, doc='is there a schema for the type')


def api_setup(e, st):
    def make(e, st, args, kw):
        t = e.to_val(st, args[0])
        for st1, b in e.fork(st, made_ok(t)):
            if b:
                yield st1, O(made(t), 'schema')
            else:
                yield e.throw(st1, MarshError, None)
    e.models[marsh.schema.UnmarshalSchema] = make


KW = Val
mk_e = Abstract('MK', [LE], 'what marshaling the keyword arguments does')


def un_cases(a):
    ty, x, kw = a.type_, a.element, a.kwargs
    ok = made_ok(ty)
    s = made(ty)
    plain = And(ok, empty(kw))
    kx = vmap(DICT, kw)
    m = M.val(kx)
    bad = And(ok, Not(empty(kw)), Not(missing(x)), Not(isM(x)))
    go = And(ok, Not(empty(kw)), Or(missing(x), isM(x)))
    base = Ite(missing(x), (), lambda: ofM(x), LE)
    y = vmap(DICT, eupdate(base, ofM(m)))
    return [exc(Not(ok), MarshError, name='no schema')] + U.cases([s, x], plain) + [exc(bad, TypeError, name='keyword arguments with an element that is no mapping')] \
        + fails(And(go, Not(M.ok(kx))), kx) + U.cases([s, y], And(go, M.ok(kx)))


unmarshal = Contract(
    'marsh._functional:unmarshal', {'type_': 'val', 'element': 'val', 'kwargs': 'le'}, runtime=False, short='unmarshal', setup=api_setup, requires=lambda a: [wfv(a.element), ewf(a.kwargs), allstr(ekeys(a.kwargs))],
    extra=lambda e, st, a: [isM(M.val(vmap(DICT, a.kwargs))), wfv(M.val(vmap(DICT, a.kwargs)))], cases=un_cases)
cast = Contract('marsh._functional:cast', {'type_': 'val', 'value': 'val'}, runtime=False, short='cast', setup=api_setup,
                extra=lambda e, st, a: [wfv(M.val(a.value))],
                cases=lambda a: fails(Not(M.ok(a.value)), a.value) + [exc(And(M.ok(a.value), Not(made_ok(a.type_))), MarshError)] + U.cases([made(a.type_), M.val(a.value)], And(M.ok(a.value), made_ok(a.type_))))

# ------------------------------------------------------------- further leaves
b64e = Unint('b64e', [Val], Str, doc='the base64 text of bytes')
bytes_to_base64 = Contract('marsh.utils:bytes_to_base64', {'value': 'val'}, runtime=False, assumed='base64 and text encodings of the standard library', cases=lambda a: [ret(True, b64e(a.value))], ret='str')
bytes_marshal = Contract('marsh.schema.types.bytes:BytesMarshalSchema.marshal', {'self': Obj(tys.bytes.BytesMarshalSchema, value='val')}, runtime=False,
                         name='BytesMarshalSchema.marshal', short='bytes_marshal', ret='str', cases=lambda a: [ret(True, b64e(a.self.value))])


def part(o, n):
    return attr(o, vstr(L.S(n)))


def slice_setup(e, st):
    for n in ('start', 'stop', 'step'):
        e.val_attrs[n] = lambda e, st, v, n=n: iter([(st, e.norm(S('val', part(v.t, n))))])


def _slice(o):
    d = ()
    for n in ('start', 'stop', 'step'):
        d = eset(d, vstr(L.S(n)), part(o, n))
    return d


slice_marshal = Contract('marsh.schema.types.slice:SliceMarshalSchema.marshal', {'self': Obj(tys.slice.SliceMarshalSchema, value='val')}, runtime=False, setup=slice_setup,
                         name='SliceMarshalSchema.marshal', short='slice_marshal', cases=lambda a: [ret(True, lambda: vmap(DICT, _slice(a.self.value)))])

complex_of = Unint('complex_of', [Val], Val, doc='the complex number that a value stands for')
c_real = Unint('c_real', [Val], Fl, doc='the real part')
c_imag = Unint('c_imag', [Val], Fl, doc='the imaginary part')


def complex_setup(e, st):
    def conv(e, st, args, kw):
        yield st, O(complex_of(e.to_val(st, args[0])), 'complex')
    e.models[complex] = conv
    e.attr_models[('complex', 'real')] = lambda e, st, v: iter([(st, e.norm(S('float', c_real(v.t))))])
    e.attr_models[('complex', 'imag')] = lambda e, st, v: iter([(st, e.norm(S('float', c_imag(v.t))))])


def complex_cases(a):
    c = complex_of(a.self.value)
    flat = num_eq(vfloat(c_imag(c)), vint(0))
    d = eset(eset((), vstr(L.S('real')), vfloat(c_real(c))), vstr(L.S('imag')), vfloat(c_imag(c)))
    return [ret(flat, lambda: vfloat(c_real(c)), name='a real number'), ret(Not(flat), lambda: vmap(DICT, d), name='both parts')]


complex_marshal = Contract('marsh.schema.types.complex:ComplexMarshalSchema.marshal', {'self': Obj(tys.complex.ComplexMarshalSchema, value='val')}, runtime=False, setup=complex_setup,
                           name='ComplexMarshalSchema.marshal', short='complex_marshal', cases=complex_cases)
