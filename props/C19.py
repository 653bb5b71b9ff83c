"""Caches are transparent: a cached result is the result of the computation for an equal key."""
import gc

import marsh
from marsh.utils import CachePool, ValueCache, cache
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C19', modules=['containers', 'caching'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling'],
         contracts=['vc_getitem', 'vc_setitem', 'vc_delitem', 'vc_info', 'vc_disable', 'vc_enable', 'cache_plain', 'cache_weak', 'cache_ignore', 'cache_other', 'cache_deco', 'pool_cache_clear', 'pool_cache_disable', 'pool_cache_enable', 'pool_info', 'pool_add', 'pool_get', 'pool_new', 'pool_value', 'sd_get', 'sd_set', 'sd_del', 'sd_len', 'remove_order'], lemmas=['allis_app', 'oseq_snoc', 'llen_rev', 'uset_get', 'ufirst_range', 'elen_set', 'pairs_rev'],
         rule='random histories of value caches and of cached functions over hashable and unhashable keys, compared with the uncached function and an association list',
         limits=['functools.lru_cache is assumed to give what the function gave for equal arguments', 'single threaded use'])
P.replay_ns = NS
KEYS = ['a', 'b', 1, True, 1.0, 0, False, None, (1, 2), (), frozenset({1}), -1, -2, [1], [1.0], [True], [], {}, {'a': 1}, {1}, (1, [2]), (1.0, [2]), [[1]], 'c', 2, int, str, ('a', 1), ['a'], (int,), ([1], list), -1.0, 'ab', (1, int)]


def unhashable(k):
    try:
        hash(k)
    except TypeError:
        return True
    return False


def same_key(a, b, typed=False):
    return unhashable(a) == unhashable(b) and a == b and (not typed or type(a) is type(b))


def _history(rng):
    pool = rng.sample(range(len(KEYS)), rng.randint(1, 8))
    ops = ['set'] * 5 + ['get'] * 5 + ['del', 'del', 'disable', 'enable', 'enable', 'clear']
    return rng.random() < .5, [(rng.choice(ops), rng.choice(pool), rng.randint(0, 9)) for _ in range(rng.randint(1, 25))]


@P.oracle(gen=_history, n=6000)
def value_cache(typed, ops):
    """a value cache is a dictionary that gives nothing and takes nothing while it is disabled, and counts"""
    c, m, off, hits, misses = ValueCache(typed=typed), [], False, 0, 0
    for op, n, v in ops:
        k = KEYS[n]
        i = next((i for i, (x, _) in enumerate(m) if same_key(x, k, typed)), None)
        want = got = None
        before = list(m)
        if op == 'set' and not off:
            if i is None:
                m.append((k, v))
            else:
                m[i] = (m[i][0], v)
        elif op == 'get':
            want = KeyError if off or i is None else m[i][1]
            if not off:
                hits, misses = hits + (i is not None), misses + (i is None)
        elif op == 'del':
            want = KeyError if i is None else m.pop(i) and None
        elif op == 'clear':
            m, hits, misses = [], 0, 0
        elif op in ('disable', 'enable'):
            off = op == 'disable'
        try:
            if op == 'set':
                c[k] = v
            elif op == 'get':
                got = c[k]
            elif op == 'del':
                del c[k]
            else:
                getattr(c, 'cache_' + op)()
        except KeyError:
            got = KeyError
        if got != want:
            return f'{op} {k!r} on {before}, typed={typed}, disabled={off}: {got!r}, wanted {want!r}'
        info = c.cache_info()
        if (info.hits, info.misses, info.maxsize, info.currsize, len(c)) != (hits, misses, None, len(m), len(m)):
            return f'after {op} {k!r} on {before}: {info} and length {len(c)}, wanted {hits} hits, {misses} misses and {len(m)} entries'
    return None


ATOMS = ['a', 'b', 1, True, 1.0, 0, None, (1,), (1, 2), int, str, 'x', 2, -1, -2]


def _gargs(rng):
    pool = rng.sample(ATOMS, 4)

    def args():
        return tuple(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))), {n: rng.choice(pool) for n in rng.sample('abx', rng.choice([0, 0, 1, 2, 3]))}
    a = args()
    b = args() if rng.random() < .5 else (a[0], dict(zip(rng.sample(list(a[1]), len(a[1])), a[1].values()))) if rng.random() < .5 else (a[0][:1], a[1]) if rng.random() < .3 else (a[0], dict(a[1]))
    return a, b


@P.oracle(gen=_gargs, n=4000)
def hash_keys(a, b):
    """the keys made of two lists of arguments are equal only if the arguments (and their types, if typed) are; they are for the same arguments"""
    for typed, f in ((False, marsh.utils.make_hash_key), (True, marsh.utils.make_typed_hash_key)):
        k, l = f(*a[0], **a[1]), f(*b[0], **b[1])
        same = a == b and (not typed or list(map(type, a[0])) == list(map(type, b[0])) and {n: type(v) for n, v in a[1].items()} == {n: type(v) for n, v in b[1].items()})
        if k == l and not same:
            return f'{a} and {b} have the same key {k!r}'
        if same and list(a[1]) == list(b[1]) and (k != l or hash(k) != hash(l)):
            return f'{a} has two keys, {k!r} and {l!r}'


class Boom(Exception):
    pass


class Owner:
    def __init__(self, name, eq=None):
        self.name, self.eq = name, eq

    def __repr__(self):
        return f'Owner({self.name})'


def _calls(rng):
    pool = rng.sample(range(len(KEYS)), rng.randint(1, 6))

    def arg():
        return rng.choice(pool)
    ops = ['call'] * 12 + ['disable', 'enable', 'enable', 'clear', 'raise', 'type']
    conf = {'typed': rng.random() < .5, 'binding': rng.choice([None, None, 'weak', 'ignore']), 'maxsize': rng.choice([None, None, 1, 2])}
    return conf, rng.random() < .3, [(rng.choice(ops), rng.randint(0, 1), [arg() for _ in range(rng.randint(0, 2))], {x: arg() for x in 'pq' if rng.random() < .3}) for _ in range(rng.randint(1, 25))]


@P.oracle(gen=_calls, n=6000)
def cached_function(conf, pooled, ops):
    """a cached function gives what the function gives, and calls it again only if it has to"""
    calls, mode = [], ['ok']
    bound = conf['binding'] is not None

    def f(*args, **kwargs):
        """doc of f"""
        calls.append((args, kwargs))
        if mode[0] == 'raise':
            raise Boom
        if mode[0] == 'type':
            raise TypeError('inside')
        return (len(calls), args, sorted(kwargs.items()))
    pool = CachePool()
    g = pool.new_callable_cache(f, name='g', **conf) if pooled else cache(f, **conf)
    if g.__wrapped__ is not f or g.__doc__ != f.__doc__:
        return 'the function that is decorated is not kept'
    if pooled and (list(pool) != ['g'] or pool['g'] is not g):
        return f'the pool has {list(pool)}'
    ctl = pool if pooled else g
    owners, seen, off = [Owner('one'), Owner('two')], [], False

    def same_call(a, b):
        (s, x, y), (s2, x2, y2) = a, b
        if conf['binding'] == 'weak' and s is not s2 or len(x) != len(x2) or list(y) != list(y2):
            return False
        return all(same_key(p, q, conf['typed']) for p, q in zip([*x, *y.values()], [*x2, *y2.values()]))

    def types(k):
        # functools.lru_cache may keep 1 and 1.0 apart even where it is not typed
        return [type(x) for x in [*k[1], *k[2].values()]]
    for op, o, args, kwargs in ops:
        if op in ('disable', 'enable', 'clear'):
            getattr(ctl, 'cache_' + op)()
            off = op == 'disable' if op != 'clear' else off
            if op == 'clear':
                seen = []
            continue
        args, kwargs = tuple(KEYS[i] for i in args), {x: KEYS[i] for x, i in kwargs.items()}
        owner = owners[o] if bound else None
        real = ((owner,) if bound else ()) + args
        mode[0] = op if op != 'call' else 'ok'
        key = (owner, args, kwargs)
        hard = any(map(unhashable, [*args, *kwargs.values()]))
        hit = None if off or hard else next((r for k, r in reversed(seen) if same_call(k, key)), None)
        n = len(calls)
        try:
            got = g(*real, **kwargs)
        except (Boom, TypeError) as err:
            got = type(err)
        new = calls[n:]
        desc = f'{conf}, disabled={off}: {op} {real} {kwargs}'
        if any(a != real or k != kwargs or bound and a[0] is not owner for a, k in new):
            return f'{desc} called the function with {new}'
        if hit is not None and not new:
            if got not in [r for k, r in seen if same_call(k, key)]:
                return f'{desc} gave {got}, it was {hit}'
            continue
        if hit is not None and conf['maxsize'] is None and any(same_call(k, key) and types(k) == types(key) for k, _ in seen):
            return f'{desc} called the function again'
        if not new:
            return f'{desc} gave {got!r} and the function was never called so since the caches were cleared'
        if op != 'call':
            if got is not (Boom if op == 'raise' else TypeError) or len(new) != (2 if op == 'type' and not off and not hard else len(new)):
                return f'{desc} gave {got!r}'
        elif got != (n + 1, real, sorted(kwargs.items())) or len(new) != 1:
            return f'{desc} gave {got!r} after {len(new)} calls, the function gives {(n + 1, real, sorted(kwargs.items()))}'
        if op == 'call' and not off and not hard:
            seen.append((key, got))
    return None


def _weak(rng):
    return rng.choice(['weak']), rng.randint(1, 3)


@P.oracle(gen=_weak, n=20)
def weak_binding(binding, n):
    """a cache with a weak binding does not keep the object alive"""
    import weakref

    class A:
        @cache(binding=binding)
        def f(self, x):
            return x
    objs = [A() for _ in range(n)]
    refs = [weakref.ref(o) for o in objs]
    for i, o in enumerate(objs):
        if o.f(i) != i or o.f(i) != i:
            return 'wrong result'
    del o, objs
    gc.collect()
    if any(r() is not None for r in refs):
        return 'the objects are kept alive'
    return None


def _pool(rng):
    return ([rng.choice('abc') for _ in range(rng.randint(1, 5))], rng.choice(['clear', 'disable', 'enable', 'info']))


@P.oracle(gen=_pool, n=200)
def pool_of_caches(names, op):
    """a pool does to each of its caches what it is told to do"""
    pool, last = CachePool(), {}
    for i, name in enumerate(names):
        if i % 2:
            last[name] = pool.new_value_cache(name)
            last[name]['k'] = i
        else:
            last[name] = pool.new_callable_cache(lambda x: x, name=name)
            last[name](1)
    if list(pool) != list(last) or len(pool) != len(last) or any(pool[n] is not c for n, c in last.items()):
        return f'the pool has {dict(pool)}, wanted {last}'
    if op == 'info':
        want = {n: c.cache_info() for n, c in last.items()}
        return None if pool.cache_info() == want else f'{pool.cache_info()}, wanted {want}'
    getattr(pool, 'cache_' + op)()
    for n, c in last.items():
        size = c.cache_info().currsize
        if size != (0 if op == 'clear' else 1):
            return f'{op}: {n} has {size} entries'
        if op == 'disable':
            if isinstance(c, ValueCache):
                if any(True for _ in [0] if 'x' == _try(c, 'k')) or _try(c, 'k') is not KeyError:
                    return f'{n} is not disabled'
            else:
                hits = c.cache_info().hits
                c(1)
                if c.cache_info().hits != hits:
                    return f'{n} is not disabled'
    return None


def _try(c, k):
    try:
        return c[k]
    except KeyError:
        return KeyError
