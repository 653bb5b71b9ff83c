"""Contracts of namespaces (property C21)."""
import pyvc  # noqa
import marsh
from marsh.errors import MarshError, UnmarshalError
from marsh.schema import namespace as nsm
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, It, ExcV
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, Loop, Obj, Const, Opq
from .kinds import missing
from .schemas import at, U, schema_list
from .marshaling import M, fails
from . import structured, types as _types  # noqa

sub_err = Unint('sub_err', [Val, Val], Bool, doc='does issubclass(a, b) raise TypeError')
is_sub = Unint('is_sub', [Val, Val], Bool, doc='issubclass(a, b)')
NSP = Obj(nsm.Namespace, name='str', base='val', components='le')


def sub(a, b):
    return And(Not(sub_err(a, b)), is_sub(a, b))


def sub_setup(e, st):
    def issub(e, st, args, kw):
        x, y = e.to_val(st, args[0]), e.to_val(st, args[1])
        for st1, err in e.fork(st, sub_err(x, y)):
            yield e.throw(st1, TypeError) if err else (st1, S('bool', is_sub(x, y)))
    e.models[issubclass] = issub


# ------------------------------------------------------------- one namespace
named = Rec('named', [LE, Val], Val, lambda c: VNone, lambda k, v, t, c: Ite(Eq(v, c), k, lambda: named(t, c)))
below = Rec('below', [LE, Val], LV, lambda c: (), lambda k, v, t, c: Ite(sub(v, c), lambda: lcons(k, below(t, c)), lambda: below(t, c)))

ns_find_class = Contract(
    'marsh.schema.namespace:Namespace.find_class', {'self': NSP, 'cls': 'val'}, runtime=False, setup=sub_setup, name='Namespace.find_class', short='ns_find_class', requires=lambda a: [eqid(a.self.components, a.cls)],
    cases=lambda a: [exc(sub_err(a.cls, a.self.base), TypeError, name='not a class'), ret(And(Not(sub_err(a.cls, a.self.base)), Not(is_sub(a.cls, a.self.base))), VNone, name='of another kind'),
                     ret(sub(a.cls, a.self.base), lambda: named(a.self.components, a.cls))],
    loops=[Loop(lambda v: [Eq(named(v.rest, v.a.cls), named(v.a.self.components, v.a.cls)), eqid(v.rest, v.a.cls)], name='components')])
# classes are equal only to themselves
eqid = Rec('eqid', [LE, Val], Bool, lambda c: True, lambda k, v, t, c: And(Implies(py_eq(v, c), Eq(v, c)), Implies(Eq(v, c), py_eq(v, c)), eqid(t, c)))
ns_below = Contract(
    'marsh.schema.namespace:Namespace.find_subclasses_iter', {'self': NSP, 'cls': 'val'}, runtime=False, ret='gen', setup=sub_setup, name='Namespace.find_subclasses_iter', short='ns_below',
    cases=lambda a: [ret(True, below(a.self.components, a.cls))],
    loops=[Loop(lambda v: [Eq(lapp(v.yields, below(v.rest, v.a.cls)), below(v.a.self.components, v.a.cls))], name='components')], lemmas=('lapp_assoc', 'lapp_nil'))


def reg_cases(a):
    s, n = a.self, vstr(a.name)
    taken = And(ehas(s.components, n), Not(a.replace))
    same = {('self', 'components'): ('le', s.components)}
    c, b = a.component, s.base
    return [exc(taken, MarshError, fields=same, name='the name is taken'), exc(And(Not(taken), sub_err(c, b)), TypeError, fields=same, name='not a class'),
            exc(And(Not(taken), Not(sub_err(c, b)), Not(is_sub(c, b))), ValueError, fields=same, name='not a subclass'),
            ret(And(Not(taken), sub(c, b)), c, fields={('self', 'components'): ('le', eset(s.components, n, c))}, name='registered')]


for _f in ('Namespace.cache_clear', 'Namespaces.cache_clear'):
    Contract('marsh.schema.namespace:' + _f, {'self': 'any'}, runtime=False, short=_f, ret='none', cases=lambda a: [ret(True, ())], assumed='clearing caches changes nothing but what is computed again (property C19)')
Contract('marsh.schema.core.unmarshal:UnmarshalSchemaMeta.cache_clear', {'cls': 'any'}, runtime=False, short='schema cache_clear', ret='none', cases=lambda a: [ret(True, ())], assumed='clearing caches changes nothing but what is computed again (property C19)')
ns_register = Contract(
    'marsh.schema.namespace:Namespace.register', {'self': Obj(nsm.Namespace, name='str', base='val', components='le', _namespaces=Const(marsh.namespaces)), 'component': 'val', 'name': 'str', 'replace': 'bool'}, runtime=False,
    setup=sub_setup, requires=lambda a: [Not(isN(a.component))], modifies=('components',), name='Namespace.register', short='ns_register', cases=reg_cases)

# ------------------------------------------------------------- all namespaces
ns_subs = Unint('ns_subs', [Val, Val], LV, doc='the names of the components of a namespace that are subclasses of a class')
ns_name = Unint('ns_name', [Val, Val], Val, doc='what namespace.find_class gives: a name or None')
ns_base = Unint('ns_base', [Val], Val, doc='the base class of a namespace')
ALL = Obj(nsm.Namespaces, _namespaces='le')
pairs_of = Rec('pairs_of', [LV, Val], LV, lambda n: (), lambda h, t, n: lcons(vseq(TUPLE, lcons(h, lcons(n, ()))), pairs_of(t, n)))
all_below = Rec('all_below', [LE, Val], LV, lambda c: (), lambda k, v, t, c: lapp(pairs_of(ns_subs(v, c), v), all_below(t, c)))
newest = Rec('newest', [LE, Val], Val, lambda c: VNone, lambda k, v, t, c: Ite(truthy(ns_name(v, c)), lambda: ns_name(v, c), lambda: newest(t, c)))
holding = Rec('holding', [LE, Val], LV, lambda c: (), lambda k, v, t, c: Ite(sub(c, ns_base(v)), lambda: lcons(v, holding(t, c)), lambda: holding(t, c)))
Lemma('pairs_of_app', [('a', LV), ('b', LV), ('n', Val)], lambda a, b, n: pairs_of(lapp(a, b), n) == lapp(pairs_of(a, n), pairs_of(b, n)), on='a', patterns=lambda a, b, n: [pairs_of(lapp(a, b), n)])
Contract('marsh.schema.namespace:_SingletonMapping.values', {'self': ALL}, ret='any', runtime=False, short='namespaces values', prove=False,
         cases=lambda a: [ret(True, make=lambda e, st, av: It('le', av.self._namespaces, plain='values'))], assumed='the values of the mapping in the order of iteration (collections.abc.ValuesView)')


def all_setup(e, st):
    sub_setup(e, st)
    e.meth_models[('val', 'find_subclasses')] = lambda e, st, r, args, kw: iter([(st, It('lv', ns_subs(r.t, e.to_val(st, args[0])), plain='id'))])
    e.meth_models[('val', 'find_class')] = lambda e, st, r, args, kw: iter([(st, e.norm(S('val', ns_name(r.t, e.to_val(st, args[0])))))])
    e.val_attrs['base'] = lambda e, st, v: iter([(st, S('val', ns_base(v.t)))])


all_subclasses = Contract(
    'marsh.schema.namespace:Namespaces.find_subclasses_iter', {'self': ALL, 'cls': 'val'}, runtime=False, ret='gen', setup=all_setup, name='Namespaces.find_subclasses_iter', short='all_subclasses',
    cases=lambda a: [ret(True, all_below(a.self._namespaces, a.cls))],
    loops=[Loop(lambda v: [Eq(lapp(v.yields, all_below(v.rest, v.a.cls)), all_below(v.a.self._namespaces, v.a.cls))], name='namespaces'),
           Loop(lambda v: [Eq(lapp(v.yields, pairs_of(v.rest, v.val('namespace'))), lapp(v.entry.yields, pairs_of(ns_subs(v.val('namespace'), v.a.cls), v.val('namespace'))))], name='components')],
    lemmas=('lapp_assoc', 'lapp_nil'))
all_namespaces = Contract(
    'marsh.schema.namespace:Namespaces.find_namespaces_iter', {'self': ALL, 'cls': 'val'}, runtime=False, ret='gen', setup=all_setup, name='Namespaces.find_namespaces_iter', short='all_namespaces',
    cases=lambda a: [ret(True, holding(a.self._namespaces, a.cls))],
    loops=[Loop(lambda v: [Eq(lapp(v.yields, holding(v.rest, v.a.cls)), holding(v.a.self._namespaces, v.a.cls))], name='namespaces')], lemmas=('lapp_assoc', 'lapp_nil'))
all_find_class = Contract(
    'marsh.schema.namespace:Namespaces.find_class', {'self': ALL, 'cls': 'val'}, runtime=False, setup=all_setup, name='Namespaces.find_class', short='all_find_class',
    cases=lambda a: [ret(True, lambda: newest(erev(a.self._namespaces, ()), a.cls))],
    loops=[Loop(lambda v: [Eq(newest(v.rest, v.a.cls), newest(erev(v.a.self._namespaces, ()), v.a.cls))], name='namespaces')])


def new_setup(e, st):
    def make(e, st, args, kw):
        if args or set(kw) != {'name', 'base'}:
            raise E.Unsupported('Namespace made otherwise')
        yield st, S('val', ns_made(e.to_val(st, kw['name']), e.to_val(st, kw['base'])))
    e.models[nsm.Namespace] = make


ns_made = Unint('ns_made', [Val, Val], Val, doc='a new namespace with a name and a base class')


def new_cases(a):
    m, n = a.self._namespaces, vstr(a.name)
    x = ns_made(n, a.base)
    return [exc(ehas(m, n), MarshError, fields={('self', '_namespaces'): ('le', m)}, name='the name is taken'), ret(Not(ehas(m, n)), x, fields={('self', '_namespaces'): ('le', eset(m, n, x))})]


ns_new = Contract('marsh.schema.namespace:Namespaces.new', {'self': ALL, 'name': 'str', 'base': 'val'}, runtime=False, setup=new_setup, modifies=('_namespaces',), name='Namespaces.new', short='ns_new', cases=new_cases)
ns_get = Contract('marsh.schema.namespace:Namespaces.__getitem__', {'self': ALL, 'name': 'str'}, runtime=False, name='Namespaces.getitem', short='ns_get',
                  cases=lambda a: [ret(ehas(a.self._namespaces, vstr(a.name)), lambda: eget(a.self._namespaces, vstr(a.name))), exc(Not(ehas(a.self._namespaces, vstr(a.name))), KeyError)])
ns_del = Contract('marsh.schema.namespace:Namespaces.__delitem__', {'self': ALL, 'name': 'str'}, runtime=False, ret='none', modifies=('_namespaces',), name='Namespaces.delitem', short='ns_del',
                  cases=lambda a: [ret(ehas(a.self._namespaces, vstr(a.name)), (), fields={('self', '_namespaces'): ('le', edel(a.self._namespaces, vstr(a.name)))}),
                                   exc(Not(ehas(a.self._namespaces, vstr(a.name))), KeyError, fields={('self', '_namespaces'): ('le', a.self._namespaces)})])

# ------------------------------------------------------------- building a component by its name
ns_schema = _types.ns_schema


def build_setup(e, st):
    schema_list(e)
    e.meth_models[('nspace', '__getitem__')] = lambda e, st, r, args, kw: iter([(st, O(ns_schema(r.t, e.to_val(st, args[0])), 'schema'))])


comp_schema = Unint('comp_schema', [Val], Val, doc='the schema of the component with a name')
Contract('marsh.schema.namespace:Namespace.__getitem__', {'self': NSP, 'name': 'str'}, ret='any', runtime=False, short='namespace getitem', prove=False, requires=lambda a: [ehas(a.self.components, vstr(a.name))],
         cases=lambda a: [ret(True, make=lambda e, st, av: O(comp_schema(vstr(av.name)), 'schema'))], assumed='the schema of the component that has the name (which schema a type has is property C17)')


def none(x):
    return Or(isN(x), missing(x))


def build_cases(a):
    x, n = a.element, vstr(a.name)
    known = ehas(a.self.components, n)
    A, W = vseq(TUPLE, a.args), vmap(DICT, a.kwargs)
    p, k = Not(empty(a.args)), Not(empty(a.kwargs))
    sch = comp_schema(n)
    P, Q = And(known, p, Not(k)), And(known, k, Not(p))
    seq, mp = isQ(x), isM(x)
    Pg, Qg = And(P, Or(seq, none(x))), And(Q, Or(mp, none(x)))
    y = Ite(seq, lambda: vseq(LIST, lapp(ofQ(x), ofQ(M.val(A)))), lambda: M.val(A), Val)
    z = Ite(mp, lambda: vmap(DICT, eupdate(ofM(x), ofM(M.val(W)))), lambda: M.val(W), Val)
    return [exc(Not(known), UnmarshalError, name='unknown name'), exc(And(known, p, k), TypeError, name='both kinds of arguments'),
            exc(And(P, Not(seq), Not(none(x))), TypeError, name='positional arguments for no sequence'), exc(And(Q, Not(mp), Not(none(x))), TypeError, name='keyword arguments for no mapping')] \
        + U.cases([sch, x], And(known, Not(p), Not(k))) + fails(And(Pg, Not(M.ok(A))), A) + fails(And(Qg, Not(M.ok(W))), W) + U.cases([sch, y], And(Pg, M.ok(A))) + U.cases([sch, z], And(Qg, M.ok(W)))


def build_extra(e, st, a):
    A, W = M.val(vseq(TUPLE, a.args)), M.val(vmap(DICT, a.kwargs))
    return [isQ(A), isM(W), wfv(A), wfv(W)]


build = Contract('marsh.schema.namespace:Namespace.build', {'self': NSP, 'element': 'val', 'name': 'str', 'args': 'tuplelv', 'kwargs': 'le'}, runtime=False, setup=build_setup, extra=build_extra,
                 requires=lambda a: [wfv(a.element), ewf(a.kwargs), allstr(ekeys(a.kwargs))], name='Namespace.build', short='ns_build', cases=build_cases, lemmas=('lapp_nil', 'lapp_assoc'))
