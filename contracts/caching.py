"""Contract of marsh.utils.cache: what the decorated function does (property C19).

The decorator returns a closure; the contract says what calls of that closure do, in every
order with disabling and enabling the cache, for all arguments.  functools.lru_cache is an
assumed contract: it raises TypeError if the arguments can not be hashed, and otherwise
calls the function or gives what the function gave earlier (when the enclosing variables
may have had other values) for equal arguments."""
import functools
import weakref

import pyvc  # noqa
import z3
import marsh
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV, Clo, Model, ObjCell, DictCell, OtherError
from pyvc import engine as E
from pyvc import logic as L
from pyvc.contract import Contract, ret, exc, Const, Obj, Loop
from .schemas import Abstract

FN = Abstract('FN', [LV, LE], 'what the function that is cached does (all positional arguments, keyword arguments)')
hashed = Unint('args_hash', [LV, LE], Bool, doc='can the arguments of a call be hashed')
wref = Unint('wref', [Val], Val, doc='weakref.ref of an object that is alive')
is_wref = Unint('is_wref', [Val], Bool, doc='is a value a weak reference made by this function')


class Function:
    """an object that functools.wraps returns"""


class Lru:
    """an object that functools.lru_cache returns"""


def split(e, st, args, kw):
    """(positional arguments, keyword arguments) of a call as terms"""
    out = ()
    for a in reversed(args):
        if isinstance(a, E.StarArg):
            v = e.to_val(st, a.v)
            if isz(v) and e.feasible(st, [Not(isQ(v))]):
                raise E.Unsupported('star argument')
            if out != ():
                raise E.Unsupported('mixed star arguments')
            out = ofQ(v)
        else:
            out = lcons(e.to_val(st, a), out)
    if set(kw) - {'**'}:
        raise E.Unsupported('keyword arguments by name')
    d = kw.get('**')
    k = () if d is None else st.heap[d.loc].term if isinstance(d, R) else ofM(e.to_val(st, d))
    return out, k


def setup(e, st):
    def call_fn(e, st, f, args, kw):
        if isz(f.t) and z3.is_app(f.t) and f.t.decl().name() == wref.name:
            if args or kw:
                raise E.Unsupported('call of a weak reference')
            yield st, S('val', f.t.arg(0))
            return
        if not z3.eq(f.t, e.cur_args.fn):
            yield e.throw(st, OtherError)        # some other value is called
            return
        a, k = split(e, st, args, kw)
        for st1, o in FN.outcomes(e, st, [a, k]):
            st1 = st1.fork()
            st1.trace = st1.trace + (('fn', a, k, o),)
            yield st1, o
    e.call_models['anycall'] = call_fn

    def weak(e, st, args, kw):
        if len(args) != 1 or kw:
            raise E.Unsupported('weakref.ref')
        yield st, S('val', wref(e.to_val(st, args[0])))
    e.models[weakref.ref] = weak

    def lru(e, st, args, kw):
        if args or set(kw) - {'maxsize', 'typed'}:
            raise E.Unsupported('lru_cache called otherwise')
        ok = And(Eq(e.to_val(st, kw.get('maxsize', K(128))), e.cur_args.maxsize), Eq(e.to_val(st, kw.get('typed', K(False))), vbool(e.cur_args.typed)))
        e.oblige('lru_cache gets the options of the cache', st, ok)

        def deco(e, st, args, kw):
            st = st.fork()
            r = e.alloc(st, ObjCell(Lru, {}))
            e.set_cell(st, r.loc, ObjCell(Lru, dict(fn=args[0], cache_clear=T((K('clear'), K(r.loc))), cache_info=T((K('info'), K(r.loc))))))
            yield st, r
        yield st, Model(deco, 'lru_cache')
    e.models[functools.lru_cache] = lru

    def call_lru(e, st, f, args, kw):
        a, k = split(e, st, args, kw)
        fn = st.heap[f.loc].fields['fn']
        for st1, b in e.fork(st, hashed(a, k)):
            st1 = st1.fork()
            st1.trace = st1.trace + (('lru', a, k),)
            if not b:
                yield e.throw(st1, TypeError)
                continue
            yield from e.call(st1, fn, args, kw)        # a miss
            # a hit: what it gave at an earlier time, when the variables may have had other values
            old = st1.fork()
            if isinstance(fn, Clo):
                for env in old.frames.values():
                    for n, v in list(env.items()):
                        if n in changed(fn):
                            env[n] = S('bool', fresh(Bool, n)) if isinstance(v, K) and isinstance(v.obj, bool) or isinstance(v, S) and v.sort == 'bool' else S('val', fresh(Val, n))
            old.trace = old.trace + (('hit',),)
            for st2, o in e.call(old, fn, args, kw):
                if isinstance(o, ExcV):
                    continue        # not remembered
                st2 = st2.fork()
                st2.frames = {i: dict(v) for i, v in st1.frames.items()}
                yield st2, o
    e.call_models[Lru] = call_lru

    def wraps(e, st, args, kw):
        if len(args) != 1 or kw:
            raise E.Unsupported('functools.wraps')

        wrapped = args[0]

        def deco(e, st, args, kw):
            st = st.fork()
            yield st, e.alloc(st, ObjCell(Function, {'fn': args[0], '__wrapped__': wrapped}))
        yield st, Model(deco, 'wraps')
    e.models[functools.wraps] = wraps
    e.call_models[Function] = lambda e, st, f, args, kw: e.call(st, st.heap[f.loc].fields['fn'], args, kw)


def changed(clo):
    """the variables of the enclosing functions that some nested function assigns"""
    import ast
    root = clo.fr
    while root.parent is not None:
        root = root.parent
    return {n for s in ast.walk(root.node) if isinstance(s, ast.Nonlocal) for n in s.names}


def outcome_is(e, st, o, want):
    """the same value or the same exception"""
    if isinstance(o, ExcV) or isinstance(want, ExcV):
        return isinstance(o, ExcV) and isinstance(want, ExcV) and o.ref.loc == want.ref.loc
    return Eq(e.to_val(st, o), e.to_val(st, want))


def good(e, st, a, n, o, args, kw, own, disabled):
    """is the outcome o of a call what it should be; own: is the first argument left out of the key"""
    log = st.trace[n:]
    calls = [x for x in log if x[0] == 'fn']
    hit = any(x[0] == 'hit' for x in log)
    cs = []
    if disabled == any(x[0] == 'lru' for x in log):        # the cache is asked unless it is disabled
        return False
    if not calls:       # the arguments can not be hashed
        if disabled or not isinstance(o, ExcV) or st.heap[o.ref.loc].cls is not TypeError:
            return False
        return And(Not(a.safe), Not(hashed(*[x for x in log if x[0] == 'lru'][-1][1:])))
    if any(not isinstance(x[3], ExcV) for x in calls[:-1]):       # called again only if it has failed
        return False
    _, ca, ck, co = calls[-1]
    cs.append(outcome_is(e, st, o, co))
    cs.append(Eq(ck, kw))
    cs.append(Eq(lt(ca), lt(args)) if own and hit else Eq(ca, args))
    return And(*cs)


def calls_of(e, st, f, binding, i, own):
    rest, kw = fresh(LV, f'args{i}'), fresh(LE, f'kw{i}')
    st = st.fork()
    st.assume(allstr(ekeys(kw)))
    d = e.alloc(st, DictCell(kw, 'dict'))
    a = [E.StarArg(S('val', vseq(TUPLE, rest)))]
    args = rest
    if binding is not None:
        s = fresh(Val, f'self{i}')
        a.insert(0, S('val', s))
        args = lcons(s, rest)
    n = len(st.trace)
    for st1, o in e.call(st, f, a, {'**': d}):
        yield st1, n, o, args, kw


def check(e, st, f, binding, a, what):
    """[Bool]: every call after any history of a call, disabling and enabling is what it should be"""
    out = []
    own = binding == 'ignore'

    def hist(st, steps):
        if not steps:
            yield st
            return
        s, *more = steps
        if s == 'call':
            for st1, n, o, args, kw in calls_of(e, st, f, binding, 0, own):
                yield from hist(st1, more)
        else:
            for st1, m in e.getattr(st, f, 'cache_' + s):
                for st2, o in e.call(st1, m, [], {}):
                    if isinstance(o, ExcV):
                        out.append(pending(st, st2, False))
                    else:
                        yield from hist(st2, more)

    def pending(st0, st1, goal):
        return Implies(And(*st1.pc[len(st0.pc):]), goal)

    for steps in ((), ('call',), ('disable',), ('call', 'disable', 'enable'), ('disable', 'enable', 'disable')):
        off = bool(steps) and steps[-1] == 'disable'
        for st1 in hist(st, list(steps)):
            if not e.feasible(st1):
                continue
            for st2, n, o, args, kw in calls_of(e, st1, f, binding, 1, own):
                g = good(e, st2, a, n, o, args, kw, own, off)
                if g is not True and e.feasible(st2):
                    out.append(pending(st, st2, g))
    return out


def decorated(binding, a):
    def post(e, st, out):
        if isinstance(out, Model) or not (isinstance(out, R) and isinstance(st.heap[out.loc], ObjCell) and st.heap[out.loc].cls is Function):
            return [False]
        fs = st.heap[out.loc].fields
        if any(n not in fs for n in ('cache_clear', 'cache_info', 'cache_disable', 'cache_enable', '__wrapped__')):
            return [False]
        c, i = fs['cache_clear'], fs['cache_info']
        if not (isinstance(c, T) and isinstance(i, T) and c.items[0].obj == 'clear' and i.items[0].obj == 'info' and c.items[1].obj == i.items[1].obj):
            return [False]
        return [Eq(e.to_val(st, fs['__wrapped__']), a.fn)] + check(e, st, out, binding, a, '')
    return post


def parametrized(a):
    """cache(...) without a function gives the decorator"""
    def post(e, st, out):
        a.fn = fresh(Val, 'fn')
        st = st.fork()
        st.assume(Not(isN(a.fn)))
        cs = []
        n = len(st.pc)
        for st1, o in e.call(st, out, [S('val', a.fn)], {}):
            cs.append(Implies(And(*st1.pc[n:]), False if isinstance(o, ExcV) else And(*decorated(None, a)(e, st1, o))))
        return cs
    return post


def mk(short, b):
    return Contract('marsh.utils:cache', {'fn': 'val', 'maxsize': 'val', 'typed': 'bool', 'safe': 'bool', 'binding': Const(b)}, runtime=False, ret='any', name=f'cache[{b}]', short=short, setup=setup,
                    requires=lambda a: [Not(isN(a.fn))], cases=lambda a: [ret(True, excwhere=decorated(b, a))])


cache_plain = mk('cache_plain', None)
cache_weak = mk('cache_weak', 'weak')
cache_ignore = mk('cache_ignore', 'ignore')
cache_other = Contract('marsh.utils:cache', {'fn': 'val', 'maxsize': 'val', 'typed': 'bool', 'safe': 'bool', 'binding': Const('other')}, runtime=False, ret='any', name='cache[other]', short='cache_other', setup=setup,
                       requires=lambda a: [Not(isN(a.fn))], cases=lambda a: [exc(True, ValueError)])
cache_deco = Contract('marsh.utils:cache', {'fn': Const(None), 'maxsize': 'val', 'typed': 'bool', 'safe': 'bool', 'binding': Const(None)}, runtime=False, ret='any', name='cache without function', short='cache_deco', setup=setup,
                      cases=lambda a: [ret(True, excwhere=parametrized(a))])

# ------------------------------------------------- pools of caches
from marsh.utils import CachePool  # noqa


def WHAT(n):
    return vstr(L.S(n))


pool = Obj(CachePool, _caches='le', _told='lv', _what='lv')


def pool_setup(e, st):
    """a cache that is told something: ghost state remembers which, and what"""
    def tell(what):
        def f(e, st, r, args, kw):
            if args or kw:
                raise E.Unsupported('arguments')
            me = e.cur_args._env['self']
            st = st.fork()
            c = st.heap[me.loc]
            told = e.coerce(st, c.fields['_told'], 'lv')[1]
            said = e.coerce(st, c.fields['_what'], 'lv')[1]
            c = c.with_field('_told', e.new_list(st, lapp(told, lcons(r.t, ()))))
            st.heap[me.loc] = c.with_field('_what', e.new_list(st, lapp(said, lcons(WHAT(what), ()))))
            yield st, (S('val', c_info(r.t)) if what == 'cache_info' else K(None))
        return f
    for n in ('cache_clear', 'cache_disable', 'cache_enable', 'cache_info'):
        e.meth_models[('val', n)] = tell(n)


c_info = Unint('c_info', [Val], Val, doc='what a cache says about itself')
allis = Rec('allis', [LV, Val], Bool, lambda v: True, lambda h, t, v: And(Eq(h, v), allis(t, v)))
Lemma('allis_app', [('l', LV), ('m', LV), ('v', Val)], lambda l, m, v: Eq(allis(lapp(l, m), v), And(allis(l, v), allis(m, v))), on='l', patterns=lambda l, m, v: [allis(lapp(l, m), v)])


def told(what):
    def inv(v):
        return [Eq(lapp(v.field('self', '_told', 'lv'), evals(v.rest)), evals(v.a.self._caches)), allis(v.field('self', '_what', 'lv'), WHAT(what))]
    return Contract(f'marsh.utils:CachePool.{what}', {'self': pool}, runtime=False, ret='none', name=f'CachePool.{what}', short='pool_' + what, setup=pool_setup, modifies=('_told', '_what'),
                    requires=lambda a: [Eq(a.self._told, ()), Eq(a.self._what, ())],
                    cases=lambda a: [ret(True, (), fields={('self', '_told'): ('lv', evals(a.self._caches)), ('self', '_what'): ('lv', lambda now: [allis(now, WHAT(what))]), ('self', '_caches'): ('le', a.self._caches)})],
                    loops=[Loop(inv, name='caches')], lemmas=('lapp_assoc', 'lapp_nil', 'allis_app'))


pool_clear, pool_disable, pool_enable = told('cache_clear'), told('cache_disable'), told('cache_enable')
einfo = Rec('einfo', [LE, LE], LE, lambda acc: acc, lambda k, v, t, acc: einfo(t, eset(acc, k, c_info(v))))
pool_info = Contract('marsh.utils:CachePool.cache_info', {'self': pool}, runtime=False, ret='val', name='CachePool.cache_info', short='pool_info', setup=pool_setup, modifies=('_told', '_what'),
                     cases=lambda a: [ret(True, lambda: vmap(DICT, einfo(a.self._caches, ())), fields={('self', '_caches'): ('le', a.self._caches)})],
                     loops=[Loop(lambda v: [Eq(einfo(v.rest, v.acc), einfo(v.a.self._caches, ()))], name='caches')])
pool_add = Contract('marsh.utils:CachePool.add', {'self': pool, 'name': 'str', 'cache': 'val'}, runtime=False, ret='none', name='CachePool.add', short='pool_add', setup=pool_setup, modifies=('_caches',),
                    cases=lambda a: [ret(True, (), fields={('self', '_caches'): ('le', eset(a.self._caches, vstr(a.name), a.cache))})])
pool_get = Contract('marsh.utils:CachePool.__getitem__', {'self': pool, 'key': 'str'}, runtime=False, ret='val', name='CachePool.getitem', short='pool_get', setup=pool_setup,
                    cases=lambda a: [ret(ehas(a.self._caches, vstr(a.key)), lambda: eget(a.self._caches, vstr(a.key))), exc(Not(ehas(a.self._caches, vstr(a.key))), KeyError)])

cached = Unint('cached', [Val, Val, Val, Val, Val], Val, doc='what marsh.utils.cache(function, maxsize, typed, safe, binding) gives')


def new_setup(e, st):
    pool_setup(e, st)

    def cache_(e, st, args, kw):
        order = ['fn', 'maxsize', 'typed', 'safe', 'binding']
        got = dict(zip(order, args))
        if set(kw) & set(got) or set(kw) - set(order):
            raise E.Unsupported('cache called otherwise')
        got.update(kw)
        dflt = dict(maxsize=K(None), typed=K(False), safe=K(True), binding=K(None))
        import inspect as _i
        for n, p in _i.signature(marsh.utils.cache).parameters.items():
            if p.default is not _i.Parameter.empty:
                dflt[n] = K(p.default)
        vals = [e.to_val(st, got.get(n, dflt.get(n, K(None)))) for n in order]
        yield st, S('val', cached(*vals))
    e.models[marsh.utils.cache] = cache_


def new_of(a, fn):
    return cached(fn, a.maxsize, vbool(a.typed), vbool(a.safe), a.binding)


NEW = {'self': pool, 'fn': 'val', 'name': 'str', 'maxsize': 'val', 'typed': 'bool', 'safe': 'bool', 'binding': 'val'}


def new_final(e, st, out, a):
    def stored(st):
        return e.coerce(st, st.heap[a._env['self'].loc].fields['_caches'], 'le')[1]
    if isinstance(out, (E.Clo, Model)):
        x = fresh(Val, 'decorated')
        goals = [isN(a.fn), Eq(stored(st), a.self._caches)]
        st0 = st.fork()
        st0.assume(Not(isN(x)))
        n = len(st0.pc)
        for st1, o in e.call(st0, out, [S('val', x)], {}):
            if e.feasible(st1):
                g = False if isinstance(o, ExcV) else And(Eq(e.to_val(st1, o), new_of(a, x)), Eq(stored(st1), eset(a.self._caches, vstr(a.name), new_of(a, x))))
                goals.append(Implies(And(*st1.pc[n - 1:]), g))
        return goals
    if isinstance(out, ExcV):
        return [False]
    return [Not(isN(a.fn)), Eq(e.to_val(st, out), new_of(a, a.fn)), Eq(stored(st), eset(a.self._caches, vstr(a.name), new_of(a, a.fn)))]


pool_new = Contract('marsh.utils:CachePool.new_callable_cache', NEW, runtime=False, ret='any', name='CachePool.new_callable_cache', short='pool_new', setup=new_setup, modifies=('_caches',),
                    cases=lambda a: [ret(True)], final=new_final)


def value_final(e, st, out, a):
    """a new, empty and untyped cache that is enabled, and known by its name"""
    if isinstance(out, ExcV) or not isinstance(out, R) or not isinstance(st.heap[out.loc], ObjCell) or st.heap[out.loc].cls is not marsh.utils.ValueCache:
        return [False]
    fs = st.heap[out.loc].fields
    now = e.coerce(st, st.heap[a._env['self'].loc].fields['_caches'], 'le')[1]
    inner = fs['_cache']
    sd = st.heap[inner.loc].fields
    return [Eq(now, eset(a.self._caches, vstr(a.name), e.to_val(st, out))), Eq(e.coerce(st, sd['_hashable_cache'], 'le')[1], ()), Eq(e.coerce(st, sd['_unhashable_cache'], 'lv')[1], ()),
            Not(e.truth(st, fs['_typed'])), Not(e.truth(st, fs['_disabled'])), Eq(e.to_val(st, fs['_hits']), vint(0)), Eq(e.to_val(st, fs['_misses']), vint(0))]


pool_value = Contract('marsh.utils:CachePool.new_value_cache', {'self': pool, 'name': 'str'}, runtime=False, ret='any', name='CachePool.new_value_cache', short='pool_value', setup=new_setup, modifies=('_caches',),
                      cases=lambda a: [ret(True)], final=value_final)
