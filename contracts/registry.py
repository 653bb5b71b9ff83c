"""Contracts of the schema registries (property C17)."""
import pyvc  # noqa
import z3
import marsh
from marsh.errors import UnmarshalError, MarshError
from marsh.schema.core import base as cb
from marsh.schema.core import unmarshal as cu
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, Model
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Obj, Const, Opq

m_te = Unint('m_te', [Val, Val], Bool, doc='does schema.match(value) raise a TypeError')
m_err = Unint('m_err', [Val, Val], Bool, doc='does schema.match(value) raise another error')
m_yes = Unint('m_yes', [Val, Val], Bool, doc='does schema.match(value) give a true value')
is_wrap = Unint('is_wrap', [Val], Bool, doc='is the schema a subclass of WrapperSchema')


class OtherError(Exception):
    """Whatever a match function may raise besides TypeError."""


def yes(h, v):
    return And(Not(m_te(h, v)), Not(m_err(h, v)), m_yes(h, v))


# the outcome of going through the schemas in order: 0 a schema that is no wrapper matches, 1 none does, 2 a match function fails
walk = Rec('walk', [LV, Val], Int, lambda v: 1, lambda h, t, v: Ite(m_te(h, v), lambda: walk(t, v), lambda: Ite(m_err(h, v), 2, lambda: Ite(And(m_yes(h, v), Not(is_wrap(h))), 0, lambda: walk(t, v), Int), Int), Int))
# the wrappers that match and come before it, and the schema
picked = Rec('picked', [LV, Val], LV, lambda v: (), lambda h, t, v: Ite(yes(h, v), lambda: lcons(h, Ite(is_wrap(h), lambda: picked(t, v), (), LV)), lambda: picked(t, v), LV))


def reg_setup(e, st):
    def match(e, st, r, args, kw):
        if kw or len(args) != 1:
            raise E.Unsupported('match called otherwise')
        v = e.to_val(st, args[0])
        for st1, te in e.fork(st, m_te(r.t, v)):
            if te:
                yield e.throw(st1, TypeError)
                continue
            for st2, er in e.fork(st1, m_err(r.t, v)):
                if er:
                    yield e.throw(st2, OtherError)
                else:
                    yield st2, S('bool', m_yes(r.t, v))
    e.meth_models[('val', 'match')] = match

    def issub(e, st, args, kw):
        c = e.norm(args[1])
        if not (isinstance(c, K) and c.obj is cb.WrapperSchema):
            raise E.Unsupported('issubclass of another class')
        yield st, S('bool', is_wrap(e.to_val(st, args[0])))
    e.models[issubclass] = issub

    def sel(e, st, args, kw):
        if kw or args:
            raise E.Unsupported('SchemaSelection of something')
        yield st, e.new_list(st, ())
    e.models[cb.SchemaSelection] = sel


def match_cases(a):
    l, v = a.self.priority, a.value
    w = walk(l, v)
    return [ret(Eq(w, 0), lambda: vseq(LIST, picked(l, v)), name='match'), exc(Eq(w, 1), UnmarshalError, name='no match'), exc(Eq(w, 2), OtherError, name='a match function fails')]


def _match_inv(v):
    a = v.a
    return [Eq(walk(v.rest, a.value), walk(a.self.priority, a.value)), Implies(Eq(walk(v.rest, a.value), 0), Eq(lapp(v.list('schemas'), picked(v.rest, a.value)), picked(a.self.priority, a.value)))]


registry_match = Contract(
    'marsh.schema.core.base:SchemaRegistry.match', {'self': Obj(cb.SchemaRegistry, priority='lv', error=Const(UnmarshalError)), 'value': 'val'}, runtime=False, name='SchemaRegistry.match', short='registry_match',
    setup=reg_setup, cases=match_cases, loops=[Loop(_match_inv, name='schemas')], lemmas=('lapp_assoc', 'lapp_nil'))

# ------------------------------------------------- what that specification says
chain = Rec('chain', [LV, Val], Bool, lambda v: False, lambda h, t, v: And(yes(h, v), Ite(empty(t), Not(is_wrap(h)), lambda: And(is_wrap(h), chain(t, v)), Bool)))
none_of = Rec('none_of', [LV, Val], Bool, lambda v: True, lambda h, t, v: And(Or(m_te(h, v), And(Not(m_err(h, v)), Not(m_yes(h, v)))), none_of(t, v)))
Lemma('C17_chain', [('l', LV), ('v', Val)], lambda l, v: Implies(walk(l, v) == 0, chain(picked(l, v), v)), on='l')
Lemma('C17_skip', [('b', LV), ('l', LV), ('v', Val)], lambda b, l, v: Implies(none_of(b, v), And(picked(lapp(b, l), v) == picked(l, v), walk(lapp(b, l), v) == walk(l, v))), on='b')
Lemma('C17_first', [('h', Val), ('l', LV), ('v', Val)], lambda h, l, v: Implies(And(yes(h, v), Not(is_wrap(h))), And(walk(LV.lcons(h, l), v) == 0, picked(LV.lcons(h, l), v) == LV.lcons(h, LV.lnil))), on=None)

# ------------------------------------------------- putting the schemas around each other
import threading
import typing
from pyvc.values import OtherError as _Other  # noqa
from .schemas import Abstract, ty_org, ty_args, is_un, org_setup
from .kinds import missing
MK = Abstract('MK', [Val, LV, LE, Val], 'what creating a schema does (class, positional arguments, keyword arguments, the schemas that it is to wrap or None)')
BLD = Abstract('BLD', [LV, LV, LE], 'what building a selection of schemas does (schemas, positional arguments, keyword arguments)')
WRAPPED = vstr(L.S('wrapped'))
VALUE = vstr(L.S('value'))


def call_args(e, st, args, kw):
    """(positional arguments, keyword arguments without wrapped, the argument wrapped or None) of a call, as terms"""
    out = ()
    for a in reversed(args):
        if isinstance(a, E.StarArg):
            v = e.to_val(st, a.v)
            if isz(v) and e.feasible(st, [Not(isQ(v))]):
                raise E.Unsupported('star argument')
            out = ofQ(v) if out == () else lapp(ofQ(v), out)
        else:
            out = lcons(e.to_val(st, a), out)
    kw = dict(kw)
    w = kw.pop('wrapped', None)
    d = kw.pop('**', None)
    k = () if d is None else st.heap[d.loc].term if isinstance(d, R) else ofM(e.to_val(st, d))
    for n, v in kw.items():
        k = eset(k, vstr(L.S(n)), e.to_val(st, v))
    if w is None:
        return out, k, VNone
    w = e.to_val(st, w)
    if isz(w) and e.feasible(st, [Not(isQ(w))]):
        raise E.Unsupported('wrapped is no sequence')
    return out, k, vseq(TUPLE, ofQ(w))


def make_setup(e, st):
    def anycall(e, st, f, args, kw):
        a, k, w = call_args(e, st, args, kw)
        return MK.outcomes(e, st, [f.t, a, k, w])
    e.call_models['anycall'] = anycall


def build_cases(l, args, kw, pre=True):
    """the first schema is created for the arguments; it is told to wrap the others, if there are any"""
    one = And(Not(empty(l)), empty(lt(l)))
    more = And(Not(empty(l)), Not(empty(lt(l))))
    return MK.cases([lh(l), args, kw, VNone], And(pre, one)) + MK.cases([lh(l), args, kw, vseq(TUPLE, lt(l))], And(pre, more))


selection_build = Contract(
    'marsh.schema.core.base:SchemaSelection.build', {'self': 'lv', 'args': 'tuplelv', 'kwargs': 'le'}, runtime=False, name='SchemaSelection.build', short='selection_build', setup=make_setup,
    requires=lambda a: [ewf(a.kwargs), allstr(ekeys(a.kwargs)), Not(ehas(a.kwargs, WRAPPED))],
    cases=lambda a: [exc(empty(a.self), IndexError, name='nothing selected')] + build_cases(a.self, a.args, a.kwargs), lemmas=('llen_nonneg',))

WR = dict(_schema='val', wrapped='tuplelv', _args='tuplelv', _kwargs='le')


def now(e, st, field, of='self'):
    """an attribute of an argument at the end, as a term"""
    return e.to_val(st, st.heap[e.start.frames[0][of].loc].fields[field])


wrapper_schema = Contract(
    'marsh.schema.core.base:WrapperSchema.schema', {'self': Obj(cb.WrapperSchema, **WR)}, runtime=False, name='WrapperSchema.schema', short='wrapper_schema', setup=make_setup, modifies=('_schema',),
    requires=lambda a: [ewf(a.self._kwargs), allstr(ekeys(a.self._kwargs)), Not(ehas(a.self._kwargs, WRAPPED)), Not(empty(a.self.wrapped)), Not(missing(lh(a.self.wrapped)))],
    cases=lambda a: [ret(Not(isN(a.self._schema)), a.self._schema, name='created before')] + build_cases(a.self.wrapped, a.self._args, a.self._kwargs, isN(a.self._schema)), lemmas=('llen_nonneg',),
    final=lambda e, st, out, a: [] if isinstance(out, ExcV) else [Eq(now(e, st, '_schema'), e.to_val(st, out))])       # what it gives is remembered

is_schema = Unint('is_schema', [Val], Bool, doc='is it a class of schemas (and no sequence of them)')


def winit_setup(e, st):
    def issub(e, st, args, kw):
        c = e.norm(args[1])
        t = e.to_val(st, args[0])
        if isinstance(c, K) and c.obj is cb.WrapperSchema:
            yield st, e.norm(S('bool', is_wrap(t)))
        elif isinstance(c, K) and c.obj is cb.Schema:
            for st1, b in e.fork(st, is_schema(t)):
                if b:
                    yield st1, K(True)
                else:       # another class, or no class at all
                    for st2, b2 in e.fork(st1, fresh(Bool, 'class')):
                        if b2:
                            yield st2, K(False)
                        else:
                            yield e.throw(st2, TypeError)
        else:
            raise E.Unsupported('issubclass of another class')
    e.models[issubclass] = issub


def to_wrap(a):
    return Ite(is_schema(a.wrapped), lambda: lcons(a.wrapped, ()), lambda: ofQ(a.wrapped), LV)


def last_wraps(l):
    return Ite(empty(l), False, lambda: is_wrap(llast(l)), Bool)


def winit_cases(a):
    l = to_wrap(a)
    bad = Or(empty(l), last_wraps(l))
    return [exc(bad, ValueError, name='nothing to wrap, or a wrapper at the end'), ret(Not(bad), (), name='stored')]


def winit_final(e, st, out, a):
    if isinstance(out, ExcV):
        return []
    return [Eq(now(e, st, 'wrapped'), vseq(TUPLE, to_wrap(a))), Eq(now(e, st, '_args'), vseq(TUPLE, a.args)), Eq(ofM(now(e, st, '_kwargs')), a.kwargs), Eq(now(e, st, 'value'), lh(a.args))]


wrapper_init = Contract(
    'marsh.schema.core.base:WrapperSchema.__init__', {'self': Obj(cb.WrapperSchema), 'args': 'tuplelv', 'wrapped': 'val', 'kwargs': 'le'}, ret='none', runtime=False, name='WrapperSchema.__init__', short='wrapper_init',
    setup=winit_setup, modifies=('value', 'wrapped', '_args', '_kwargs'), cases=winit_cases, final=winit_final, lemmas=('llen_nonneg',),
    requires=lambda a: [Not(empty(a.args)), ewf(a.kwargs), allstr(ekeys(a.kwargs)), Not(ehas(a.kwargs, VALUE)), Not(ehas(a.kwargs, vstr(L.S('self')))), Or(is_schema(a.wrapped), isQ(a.wrapped))])

# ------------------------------------------------- selecting the schema of a type
RT = Abstract('RT', [Val], 'what resolving a forward reference does')
BU = Abstract('BU', [Val, LV, LE], 'what building the schema of a type does (type, other positional arguments, keyword arguments)')
RM = Abstract('RM', [Val], 'what looking a type up in the registry does (the value: a list of schemas)')
dep = Unint('dep', [Val], Bool, doc='does the meaning of a type depend on an order that equality does not see (a Union or Literal occurs in it)')
any_dep = Rec('any_dep', [LV], Bool, lambda: False, lambda h, t: Or(dep(h), any_dep(t)))

Lemma('lany_app', [('a', LV), ('b', LV)], lambda a, b: lany(lapp(a, b)) == Or(lany(a), lany(b)), on='a', patterns=lambda a, b: [lany(lapp(a, b))])


def ordered(t):
    return Or(is_un(t), Eq(ty_org(t), ('C', const_of(typing.Literal))))


depends_on_order = Contract(
    'marsh.schema.core.unmarshal:depends_on_order', {'value': 'val'}, ret='bool', runtime=False, short='depends_on_order', setup=org_setup,
    extra=lambda e, st, a: [Eq(dep(a.value), Or(ordered(a.value), any_dep(ty_args(a.value))))],        # the definition of dep
    cases=lambda a: [ret(True, dep(a.value))], loops=[Loop(lambda v: [Eq(any_dep(v.all), Or(lany(v.acc) if v.acc is not None else False, any_dep(v.rest)))], name='arguments')], lemmas=('lany_app',))

REC = const_of(cu.RecursiveReferenceUnmarshalSchema)
cache_add = Contract('marsh.utils:WeakTypeCache.add', {'self': 'any', 'type_': 'val'}, ret='any', runtime=False, name='WeakTypeCache.add', assumed='types that are remembered for forward references; raises TypeError for some values',
                     cases=lambda a: [may(True, ret(True, VNone), exc(True, TypeError))])


def sel_setup(e, st):
    e.shared = e.new_list(st, z3.Const('selection', LV))        # the selection that the registry remembers
    e.recursive = e.new_dict(st, z3.Const('recursive0', LE))     # what this thread has built
    e.models[threading.get_ident] = lambda e, st, args, kw: iter([(st, S('int', z3.Const('thread', Int)))])
    e.meth_models[('rcaches', '__getitem__')] = lambda e, st, r, args, kw: iter([(st, e.recursive)])

    def look(e, st, r, args, kw):
        if kw or len(args) != 1:
            raise E.Unsupported('match')
        for st1, o in RM.outcomes(e, st, [e.to_val(st, args[0])]):
            yield st1, o if isinstance(o, ExcV) else e.shared
    e.meth_models[('registry', 'match')] = look

    def build(e, st, r, args, kw):
        a, k, w = call_args(e, st, args, kw)
        if w != VNone:
            raise E.Unsupported('wrapped')
        return BLD.outcomes(e, st, [ofQ(e.to_val(st, r)), a, k])
    e.meth_models[('val', 'build')] = build
    e.meth_models[('list', 'build')] = build

    def sel(e, st, args, kw):
        if kw or len(args) > 1:
            raise E.Unsupported('SchemaSelection')
        yield st, e.new_list(st, ofQ(e.to_val(st, args[0])) if args else ())
    e.models[cb.SchemaSelection] = sel


RM_list = Unint('RM_list', [Val], LV, doc='the schemas that the registry selects for a type')


def rc0():
    return z3.Const('recursive0', LE)


def build_type_cases(a):
    x = a.value
    args = lcons(x, a.args)
    again = ehas(rc0(), x)
    return BLD.cases([ofQ(eget(rc0(), x)), args, a.kwargs], again)[:1] + BLD.cases([RM_list(x), args, a.kwargs], And(Not(again), RM.ok(x))) + RM.cases([x], Not(again))[1:]


def build_type_final(e, st, out, a):
    x = a.value
    now = st.heap[e.recursive.loc].term
    new = And(Not(ehas(rc0(), x)), RM.ok(x))
    return [Eq(st.heap[e.shared.loc].term, RM_list(x)),         # what the registry remembers is not modified
            Implies(Not(new), Eq(now, rc0())), Implies(new, Eq(now, eset(rc0(), x, vseq(LIST, lcons(('C', REC), RM_list(x))))))]


META = Obj(cu.UnmarshalSchemaMeta, registry=Opq('registry'), _recursive_cache=Opq('rcaches'))
build_type = Contract(
    'marsh.schema.core.unmarshal:UnmarshalSchemaMeta._build', {'cls': META, 'value': 'val', 'args': 'tuplelv', 'kwargs': 'le'}, runtime=False, name='UnmarshalSchema._build', short='build_type', setup=sel_setup,
    requires=lambda a: [ewf(a.kwargs), allstr(ekeys(a.kwargs)), Not(ehas(a.kwargs, WRAPPED)), ewf(rc0()), Implies(ehas(rc0(), a.value), And(isQ(eget(rc0(), a.value)), BLD.ok(ofQ(eget(rc0(), a.value)), lcons(a.value, a.args), a.kwargs)))],        # a reference is created without fail
    cases=build_type_cases, final=build_type_final,
    extra=lambda e, st, a: [Eq(z3.Const('selection', LV), RM_list(a.value))])

resolve_type = Contract('marsh.schema.core.unmarshal:resolve_type', {'value': 'val', 'cache': 'any'}, runtime=False, short='resolve_type', cases=lambda a: RT.cases([a.value]),
                        assumed='which type a forward reference means: an unknown function of the reference here (bounded: C14)')


def call_setup(e, st):
    def build(e, st, args, kw):
        kw = dict(kw)
        x = kw.pop('value', None)
        a, k, w = call_args(e, st, args, kw)
        if w != VNone:
            raise E.Unsupported('wrapped')
        if x is None:
            yield from BU.outcomes(e, st, [lh(a), lt(a), k])
            return
        for st1, b in e.fork(st, empty(a)):
            if b:
                yield from BU.outcomes(e, st1, [e.to_val(st1, x), (), k])
            else:
                yield e.throw(st1, TypeError)       # the value is given twice

    def cached(e, st, args, kw):     # shared by types that are equal
        if 'value' not in kw and not args:
            raise E.Unsupported('call of _cached_build')
        a, k, w = call_args(e, st, args, {n: v for n, v in kw.items() if n != 'value'})
        x = e.to_val(st, kw['value']) if 'value' in kw else lh(a)
        e.oblige('a schema is shared with equal types only if the meaning of the type does not depend on an order', st, Not(dep(x)))
        e.oblige('a schema with a default is not shared', st, And(empty(a if 'value' in kw else lt(a)), empty(k)))
        yield from build(e, st, args, kw)
    for n, f in (('_build', build), ('_cached_build', cached)):
        e.attr_models[(id(cu.UnmarshalSchema), n)] = (lambda f, n: lambda e, st, v: iter([(st, Model(f, n))]))(f, n)


call_type = Contract(
    'marsh.schema.core.unmarshal:UnmarshalSchemaMeta.__call__', {'cls': Const(cu.UnmarshalSchema), 'value': 'val', 'kwargs': 'le', 'args': 'tuplelv'}, runtime=False, name='UnmarshalSchema(...)', short='call_type', setup=call_setup,
    requires=lambda a: [empty(a.args), ewf(a.kwargs), allstr(ekeys(a.kwargs)), Not(ehas(a.kwargs, VALUE)), Not(ehas(a.kwargs, vstr(L.S('cls')))), Not(ehas(a.kwargs, WRAPPED))],
    cases=lambda a: BU.cases([RT.val(a.value), (), a.kwargs], RT.ok(a.value)) + RT.cases([a.value])[1:])

# ------------------------------------------------- registering a schema
ADD = Abstract('ADD', [Val], 'what adding a schema to the order of priority does')
OPTS = ('priority', 'lower_priority', 'higher_priority', 'replace')


def log(name):
    def f(e, st, r, args, kw):
        st = st.fork()
        st.trace = st.trace + ((name,),)
        yield st, K(None)
    return f


def register_setup(e, st):
    def add(e, st, r, args, kw):
        if set(kw) - set(OPTS) or len(args) > 1:
            raise E.Unsupported('add')
        x = VNone if not args else e.to_val(st, args[0])
        for st1, o in ADD.outcomes(e, st, [x]):
            st1 = st1.fork()
            st1.trace = st1.trace + (('add', x, {k: e.to_val(st1, v) for k, v in kw.items()}),)
            yield st1, o
    e.meth_models[('order', 'add')] = add
    for n in ('match', 'build', 'recursive'):
        for m in ('cache_clear', 'clear'):
            e.meth_models[('cache of ' + n, m)] = log(n)
    e.attr_models[(cu.UnmarshalSchemaRegistry, 'match')] = lambda e, st, v: iter([(st, O(z3.Const('c1', Val), 'cache of match'))])
    for c in (cu.UnmarshalSchemaMeta, cu.UnmarshalSchema):
        e.attr_models[(id(c), '_cached_build')] = lambda e, st, v: iter([(st, O(z3.Const('c2', Val), 'cache of build'))])
        e.attr_models[(id(c), '_recursive_cache')] = lambda e, st, v: iter([(st, O(z3.Const('c3', Val), 'cache of recursive'))])


def registered(e, st, out, a, x):
    """everything that was remembered is forgotten, and the schema is added once, with all options"""
    adds = [t for t in st.trace if t[0] == 'add']
    if len(adds) != 1 or {t[0] for t in st.trace} != {'add', 'match', 'build', 'recursive'}:
        return False
    kw = adds[0][2]
    if set(kw) != set(OPTS):
        return False
    same = And(Eq(adds[0][1], x), *[Eq(kw[n], getattr(a, n)) for n in OPTS])
    return And(same, ADD.ok(x) if not isinstance(out, ExcV) else Not(ADD.ok(x)), Eq(e.to_val(st, out), ADD.val(x)) if not isinstance(out, ExcV) else True)


def register_final(e, st, out, a):
    direct = Not(isN(a.schema))
    if isinstance(out, E.Clo):      # used as a decorator
        x = z3.Const('decorated', Val)
        goals = [isN(a.schema)]
        later = st.fork()
        later.trace = ()        # types may be used before the class is decorated
        for st1, o in e.call(later, out, [S('val', x)], {}):
            if e.feasible(st1):
                goals.append(Implies(And(*st1.pc[len(st.pc):]), registered(e, st1, o, a, x)))
        return goals
    return [direct, registered(e, st, out, a, a.schema)]


register = Contract(
    'marsh.schema.core.unmarshal:UnmarshalSchemaRegistry.register',
    {'self': Obj(cu.UnmarshalSchemaRegistry, priority=Opq('order')), 'schema': 'val', 'priority': 'val', 'lower_priority': 'val', 'higher_priority': 'val', 'replace': 'val'}, ret='any', runtime=False,
    name='UnmarshalSchemaRegistry.register', short='register', setup=register_setup, cases=lambda a: [may(True, ret(True), exc(True, Exception))], final=register_final)


def base_final(e, st, out, a):
    adds = [t for t in st.trace if t[0] == 'add']
    if len(adds) != 1 or set(adds[0][2]) != set(OPTS):
        return [False]
    x = adds[0][1]
    return [Eq(x, a.schema), *[Eq(adds[0][2][n], getattr(a, n)) for n in OPTS], Not(ADD.ok(x)) if isinstance(out, ExcV) else And(ADD.ok(x), Eq(e.to_val(st, out), ADD.val(x)))]


base_register = Contract(
    'marsh.schema.core.base:SchemaRegistry.register',
    {'self': Obj(cb.SchemaRegistry, priority=Opq('order')), 'schema': 'val', 'priority': 'val', 'lower_priority': 'val', 'higher_priority': 'val', 'replace': 'val'}, ret='any', runtime=False,
    name='SchemaRegistry.register', short='base_register', setup=register_setup, cases=lambda a: [may(True, ret(True), exc(True, Exception))], final=base_final)

# ------------------------------------------------- selecting the schema of a value or of a config
from marsh.schema.core import marshal as cm


def select_setup(cls):
    def setup(e, st):
        e.attr_models[(id(cls), 'registry')] = lambda e, st, v: iter([(st, O(z3.Const('registry', Val), 'registry'))])

        def look(e, st, r, args, kw):
            if kw or len(args) != 1:
                raise E.Unsupported('match')
            x = e.to_val(st, args[0])
            for st1, o in RM.outcomes(e, st, [x]):
                yield st1, o if isinstance(o, ExcV) else S('val', vseq(LIST, RM_list(x)))
        e.meth_models[('registry', 'match')] = look

        def build(e, st, r, args, kw):
            a, k, w = call_args(e, st, args, kw)
            if w != VNone:
                raise E.Unsupported('wrapped')
            return BLD.outcomes(e, st, [ofQ(e.to_val(st, r)), a, k])
        e.meth_models[('val', 'build')] = build
        e.meth_models[('list', 'build')] = build
    return setup


selects = {}
for _n, _cls, _path in (('marshal', cm.MarshalSchema, 'marsh.schema.core.marshal:MarshalSchemaMeta.__call__'), ('schema', cb.Schema, 'marsh.schema.core.base:SchemaMeta.__call__')):
    selects[_n] = Contract(
        _path, {'cls': Const(_cls), 'value': 'val', 'args': 'tuplelv', 'kwargs': 'le'}, runtime=False, name=f'{_cls.__name__}(...)', short=f'select_{_n}', setup=select_setup(_cls),
        requires=lambda a: [ewf(a.kwargs), allstr(ekeys(a.kwargs)), Not(ehas(a.kwargs, WRAPPED))],
        cases=lambda a: BLD.cases([RM_list(a.value), lcons(a.value, a.args), a.kwargs], RM.ok(a.value)) + RM.cases([a.value])[1:])
