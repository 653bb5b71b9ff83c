"""Contracts of the schemas of particular types: enums, literals, bytes, type
variables, annotated types, components of namespaces."""
import pyvc  # noqa
import marsh
from marsh.schema import types as tys
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, OtherError, BMeth
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Const, Obj, Opq
from .kinds import missing
from .path import fields, parseable
from .schemas import schema_type, Abstract, at, U, F, CQ, CM, DEF, UN, default_cases, has_def, leaf_cases, union_cases, un_any, un_first, allC, opt_schema, schema_list, MarshError, UnmarshalError, MissingValueError, MissingValueError, none_type
from .structured import CS
from .cast import prim, lit_ok, c_ok, c_val
from .marshaling import attr

EName, EValue = vstr(L.S('name')), vstr(L.S('value'))


def enum_attrs(e, st):
    e.val_attrs['name'] = lambda e, st, v: iter([(st, e.norm(S('val', attr(v.t, EName))))])
    e.val_attrs['value'] = lambda e, st, v: iter([(st, e.norm(S('val', attr(v.t, EValue))))])


def member_ok(m, x):
    """is x the name or the value of the enum member m"""
    return And(prim(x), Or(lit_ok(attr(m, EName), x), lit_ok(attr(m, EValue), x)))


enum_value_unmarshal = Contract(
    'marsh.schema.types.enum:EnumValueUnmarshalSchema.unmarshal', {'self': Obj(tys.enum.EnumValueUnmarshalSchema, **DEF), 'element': 'val'}, runtime=False, setup=enum_attrs,
    requires=lambda a: [isS(attr(a.self.value, EName)), prim(attr(a.self.value, EValue))], name='EnumValueUnmarshalSchema.unmarshal', short='enum_value_unmarshal',
    cases=lambda a: leaf_cases(a, member_ok(a.self.value, a.element), a.self.value))


# the members of an enum: l is the list of the schemas of the members
mname = lambda s: attr(schema_type(s), EName)
en_text = Rec('en_text', [LV], Bool, lambda: True, lambda h, t: And(isS(mname(h)), en_text(t)))        # names are texts
en_any = Rec('en_any', [LV, Val], Bool, lambda x: False, lambda h, t, x: Or(lit_ok(mname(h), x), en_any(t, x)))
en_first = Rec('en_first', [LV, Val], Val, lambda x: VNone, lambda h, t, x: Ite(lit_ok(mname(h), x), lambda: schema_type(h), lambda: en_first(t, x)))        # the first member with that name


def enum_setup(e, st):
    schema_list(e)
    e.val_attrs['name'] = lambda e, st, v: iter([(st, e.norm(S('val', attr(v.t, EName))))])


def enum_cases(a):
    """the member with that name, or else whatever the union of the members gives"""
    s, x = a.self, a.element
    named = And(Not(missing(x)), prim(x), en_any(s.schemas, x))
    out = [ret(named, lambda: en_first(s.schemas, x), name='the name of a member')]
    for c in union_cases(a):
        c.cond = And(Not(named), c.cond)
        out.append(c)
    return out


enum_unmarshal = Contract(
    'marsh.schema.types.enum:EnumUnmarshalSchema.unmarshal', {'self': Obj(tys.enum.EnumUnmarshalSchema, **UN), 'element': 'val'}, runtime=False, setup=enum_setup,
    requires=lambda a: [allC(a.self.schemas), en_text(a.self.schemas)], name='EnumUnmarshalSchema.unmarshal', short='enum_unmarshal', cases=enum_cases,
    loops=[Loop(lambda v: [allC(v.rest), en_text(v.rest), Eq(en_any(v.all, v.a.element), en_any(v.rest, v.a.element)), Eq(en_first(v.all, v.a.element), en_first(v.rest, v.a.element))], name='members')], lemmas=('opt_of_C',))


# ------------------------------------------------------------- literals
def lv_cases(a):
    """the nested schema gives a value that must equal the literal"""
    s, x = a.self, a.element
    d = And(missing(x), has_def(s))
    v = U.val(s.schema, x)
    run = And(Not(d), U.ok(s.schema, x))
    same = And(prim(v), Ite(isS(s.literal_value), lambda: Eq(v, s.literal_value), lambda: num_eq(v, s.literal_value), Bool))
    return default_cases(s, d) + [ret(And(run, same), v, name='equal'), exc(And(run, Not(same)), UnmarshalError, at(()), name='different')] + U.cases([s.schema, x], Not(d))[1:]


literal_value_unmarshal = Contract(
    'marsh.schema.types.literal:LiteralValueUnmarshalSchema.unmarshal',
    {'self': Obj(tys.literal.LiteralValueUnmarshalSchema, schema=Opq('schema'), literal_value='val', **DEF), 'element': 'val'}, runtime=False,
    requires=lambda a: [prim(a.self.literal_value), Implies(U.ok(a.self.schema, a.element), prim(U.val(a.self.schema, a.element)))],
    name='LiteralValueUnmarshalSchema.unmarshal', short='literal_value_unmarshal', cases=lv_cases)
get_closest = Contract('marsh.utils:get_closest', {'value': 'any', 'candidates': 'any'}, ret='val', cases=lambda a: [ret(True, where=lambda t: [Or(isN(t), isS(t))])], runtime=False, assumed='used in error messages only: gives some text or None')


def lit_setup(e, st):
    schema_list(e)
    e.val_attrs['literal_value'] = lambda e, st, v: iter([(st, e.norm(S('val', attr(v.t, vstr(L.S('literal_value'))))))])
    import typing
    for f in (typing.get_args, tys.literal.get_args):
        e.models[f] = lambda e, st, args, kw: iter([(st, S('val', fresh(Val, 'args')))])


def lu_cases(a):
    out = []
    bad = []
    for c in union_cases(a):
        if c.kind == 'ret':
            out.append(c)
        else:
            bad.append(c.cond)
    return out + [exc(Or(*bad), UnmarshalError, at(()), name='none of the literals')]


literal_unmarshal = Contract(
    'marsh.schema.types.literal:LiteralUnmarshalSchema.unmarshal', {'self': Obj(tys.literal.LiteralUnmarshalSchema, **UN), 'element': 'val'}, runtime=False, setup=lit_setup,
    requires=lambda a: [allC(a.self.schemas)], name='LiteralUnmarshalSchema.unmarshal', short='literal_unmarshal', cases=lu_cases,
    loops=[Loop(lambda v: [], name='candidates')], lemmas=('opt_of_C',))

# ------------------------------------------------------------- bytes
b64d_ok = Unint('b64d_ok', [Str], Bool, doc='can the text be decoded as base64')
b64d = Unint('b64d', [Str], Val, doc='the bytes that a base64 text stands for')
base64_to_bytes = Contract('marsh.utils:base64_to_bytes', {'value': 'str'}, runtime=False, assumed='base64 and text encodings of the standard library',
                           cases=lambda a: [ret(b64d_ok(a.value), b64d(a.value)), exc(Not(b64d_ok(a.value)), ValueError)])
bytes_unmarshal = Contract(
    'marsh.schema.types.bytes:BytesUnmarshalSchema.unmarshal', {'self': Obj(tys.bytes.BytesUnmarshalSchema, **DEF), 'element': 'val'}, runtime=False,
    name='BytesUnmarshalSchema.unmarshal', short='bytes_unmarshal', cases=lambda a: leaf_cases(a, And(prim(a.element), b64d_ok(py_str(a.element))), lambda: b64d(py_str(a.element))))

# ------------------------------------------------------------- schemas that pass the element on
typevar_unmarshal = Contract(
    'marsh.schema.types.typevar:TypeVarUnmarshalSchema.unmarshal', {'self': Obj(tys.typevar.TypeVarUnmarshalSchema, schema=Opq('schema'), **DEF), 'element': 'val'}, runtime=False,
    name='TypeVarUnmarshalSchema.unmarshal', short='typevar_unmarshal', cases=lambda a: U.cases([a.self.schema, a.element]))
from marsh.schema.core import unmarshal as cu
wrapper_unmarshal = Contract(
    'marsh.schema.core.unmarshal:WrapperUnmarshalSchema.unmarshal', {'self': Obj(cu.WrapperUnmarshalSchema, schema=Opq('schema'), **DEF), 'element': 'val'}, runtime=False,
    name='WrapperUnmarshalSchema.unmarshal', short='wrapper_unmarshal', cases=lambda a: U.cases([a.self.schema, a.element]))

# ------------------------------------------------------------- annotated types
anns_of = Unint('anns_of', [Val], LV, doc='the annotations of an annotated type, in the order in which they are written')
ann_iscls = Unint('ann_iscls', [Val], Bool, doc='is the annotation a class')
ann_cls = Unint('ann_cls', [Val], Bool, doc='is the annotation a subclass of Annotation or PreAnnotation')
ann_new = Unint('ann_new', [Val], Val, doc='an instance of an annotation class (which is created without arguments)')
ann_post = Unint('ann_post', [Val], Bool, doc='is it an instance of Annotation')
ann_pre = Unint('ann_pre', [Val], Bool, doc='is it an instance of PreAnnotation')
A = Abstract('A', [Val, Val], 'what calling an annotation with a value does')
get_annotations = Contract('marsh.utils:get_annotations', {'value': 'val'}, runtime=False, assumed='typing introspection', cases=lambda a: [ret(True, vseq(TUPLE, anns_of(a.value)))])


def ann_setup(e, st):
    def issub(e, st, args, kw):
        v = e.norm(args[0])
        for st1, b in e.fork(st, ann_iscls(e.to_val(st, v))):
            if b:
                yield st1, e.norm(S('bool', ann_cls(e.to_val(st1, v))))
            else:
                yield e.throw(st1, TypeError)
    e.models[issubclass] = issub
    e.models[('isinstance', marsh.annotation.Annotation)] = lambda e, st, v: ann_post(v.t)
    e.models[('isinstance', marsh.annotation.PreAnnotation)] = lambda e, st, v: ann_pre(v.t)

    def anycall(e, st, f, args, kw):
        if kw or len(args) > 1:
            raise E.Unsupported('call of an annotation')
        if args:
            return A.outcomes(e, st, [f.t, e.to_val(st, args[0])])
        return iter([(st, S('val', ann_new(f.t)))])
    e.call_models['anycall'] = anycall


def inst(h):
    return Ite(And(ann_iscls(h), ann_cls(h)), lambda: ann_new(h), h, Val)


an_post = Rec('an_post', [LV], LV, lambda: (), lambda h, t: Ite(ann_post(inst(h)), lambda: lcons(inst(h), an_post(t)), lambda: an_post(t)))
an_pre = Rec('an_pre', [LV], LV, lambda: (), lambda h, t: Ite(And(ann_pre(inst(h)), Not(ann_post(inst(h)))), lambda: lcons(inst(h), an_pre(t)), lambda: an_pre(t)))
# calling annotations one after the other, each with what the one before gives: does it succeed, result, failing annotation and what it was given
an_ok = Rec('an_ok', [LV, Val], Bool, lambda x: True, lambda h, t, x: And(A.ok(h, x), an_ok(t, A.val(h, x))))
an_val = Rec('an_val', [LV, Val], Val, lambda x: x, lambda h, t, x: an_val(t, A.val(h, x)))
an_bad = Rec('an_bad', [LV, Val], Val, lambda x: VNone, lambda h, t, x: Ite(A.ok(h, x), lambda: an_bad(t, A.val(h, x)), h))
an_badx = Rec('an_badx', [LV, Val], Val, lambda x: VNone, lambda h, t, x: Ite(A.ok(h, x), lambda: an_badx(t, A.val(h, x)), x))


def an_fail(pre, l, x):
    b, y = an_bad(l, x), an_badx(l, x)
    return [exc(And(pre, A.marsh(b, y)), MarshError, at(A.path(b, y)), name='an annotation rejects'), exc(And(pre, Not(A.marsh(b, y))), UnmarshalError, at(()), name='an annotation fails')]


def an_cases(a):
    l = anns_of(a.self.value)
    pre, post = an_pre(l), an_post(l)
    s, x = a.self.schema, a.element
    ok1 = an_ok(pre, x)
    y = an_val(pre, x)
    ok2 = And(ok1, U.ok(s, y))
    v = U.val(s, y)
    return an_fail(Not(ok1), pre, x) + U.cases([s, y], ok1)[1:] + an_fail(And(ok2, Not(an_ok(post, v))), post, v) + [ret(And(ok2, an_ok(post, v)), lambda: an_val(post, v))]


def _an_collect(v):
    l = anns_of(v.a.self.value)
    return [Eq(lapp(v.list('pre_annotations'), an_pre(v.rest)), an_pre(l)), Eq(lapp(v.list('annotations'), an_post(v.rest)), an_post(l))]


def _an_run(name, start):
    def inv(v):
        x, y = v.entry.val(name), v.val(name)
        return [Eq(f(v.all, x), f(v.rest, y)) for f in (an_ok, an_val, an_bad, an_badx)]
    return inv


annotated_unmarshal = Contract(
    'marsh.schema.types.annotated:AnnotatedUnmarshalSchema.unmarshal', {'self': Obj(tys.annotated.AnnotatedUnmarshalSchema, schema=Opq('schema'), **DEF), 'element': 'val'}, runtime=False, setup=ann_setup,
    name='AnnotatedUnmarshalSchema.unmarshal', short='annotated_unmarshal', cases=an_cases,
    loops=[Loop(_an_collect, name='annotations'), Loop(_an_run('element', None), name='annotations of the element'), Loop(_an_run('value', None), name='annotations of the value')], lemmas=('lapp_nil', 'lapp_assoc'))

# ------------------------------------------------------------- components of namespaces
from marsh.schema import namespace as nsm
from pyvc.values import It
subs = Unint('subs', [Val], LE, doc='the names and namespaces of the registered subclasses of a class, in the order of registration')
ns_schema = Unint('ns_schema', [Val, Val], Val, doc='the schema of the component of a namespace with a name')
find_subclasses = Contract('marsh.schema.namespace:Namespaces.find_subclasses', {'cls': 'val'}, ret='any', runtime=False, name='Namespaces.find_subclasses', short='find_subclasses',
                           cases=lambda a: [ret(True, make=lambda e, st, av: It('le', subs(av.cls), plain='items'))],
                           assumed='the registered subclasses as a cached iterable (find_subclasses_iter is proved on its own; caches are property C19)')


def ns_setup(e, st):
    schema_list(e)
    e.meth_models[('namespace', '__getitem__')] = lambda e, st, r, args, kw: iter([(st, O(ns_schema(r.t, e.to_val(st, args[0])), 'schema'))])


NSOBJ = dict(schema=Opq('schema'), **DEF)
find_namespace = Contract(
    'marsh.schema.types.namespace:NamespaceUnmarshalSchema.find_namespace', {'self': Obj(tys.namespace.NamespaceUnmarshalSchema, value='val'), 'name': 'val'}, runtime=False, setup=ns_setup,
    name='NamespaceUnmarshalSchema.find_namespace', short='find_namespace', cases=lambda a: [
        ret(ehas(subs(a.self.value), a.name), eget(subs(a.self.value), a.name), make=lambda e, st, av: O(eget(subs(av.self.value), av.name), 'namespace')),
        exc(Not(ehas(subs(a.self.value), a.name)), UnmarshalError, at(lcons(EName, ())))],
    requires=lambda a: [allstr(ekeys(subs(a.self.value)))],
    loops=[Loop(lambda v: [allstr(ekeys(v.rest)), Eq(ehas(v.all, v.a.name), ehas(v.rest, v.a.name)), Eq(eget(v.all, v.a.name), eget(v.rest, v.a.name))], name='candidates')])


def nu_cases(a):
    s, x = a.self, a.element
    has = And(isM(x), ehas(ofM(x), EName), lambda: Not(missing(eget(ofM(x), EName)))) if False else And(isM(x), ehas(ofM(x), EName), Not(missing(eget(ofM(x), EName))))
    n = eget(ofM(x), EName)
    rest = Ite(And(isM(x), ehas(ofM(x), EName)), lambda: vmap(DICT, edel(ofM(x), EName)), lambda: Ite(isM(x), lambda: vmap(DICT, ofM(x)), x, Val), Val)
    found = ehas(subs(s.value), n)
    return U.cases([s.schema, rest], Not(has)) + [exc(And(has, Not(found)), UnmarshalError, at(lcons(EName, ())), name='unknown name')] \
        + U.cases([ns_schema(eget(subs(s.value), n), n), vmap(DICT, edel(ofM(x), EName))], And(has, found))


namespace_unmarshal = Contract(
    'marsh.schema.types.namespace:NamespaceUnmarshalSchema.unmarshal', {'self': Obj(tys.namespace.NamespaceUnmarshalSchema, **NSOBJ), 'element': 'val'}, runtime=False, setup=ns_setup,
    requires=lambda a: [wfv(a.element), allstr(ekeys(subs(a.self.value)))], name='NamespaceUnmarshalSchema.unmarshal', short='namespace_unmarshal', cases=nu_cases)
