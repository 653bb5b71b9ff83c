"""Marshaling and unmarshaling leave their inputs alone and depend on nothing else."""
import copy
import dataclasses
import sys
import threading
import typing
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from . import typed
from .typed import gtype, gfor, outcome, wanted, eq, build
from .C09 import OTHER, _gother, _strdate
from .C13 import EQUAL

P = Prop('C14', modules=['schemas', 'structured', 'registry'], extra_modules=['kinds', 'path', 'element', 'cast', 'marshaling', 'containers', 'types'],
         contracts=['sequence_unmarshal', 'mapping_unmarshal', 'union_unmarshal', 'any_unmarshal', 'structured_unmarshal', 'depends_on_order', 'build_type', 'call_type', 'unmarshal', 'cast'],
         lemmas=['lany_app'],
         rule='random types and elements used repeatedly, interleaved with uses of types that are equal in parts',
         limits=['the result of Any (and an untyped parameter) is the element itself, not a copy'])
P.replay_ns = NS


def snap(v):
    """contents and identity of every container"""
    if is_map(v):
        return id(v), type(v), tuple((snap(k), snap(v[k])) for k in v)
    if is_seq(v):
        return id(v), type(v), tuple(snap(v[i]) for i in range(len(v)))
    return id(v), type(v)


def _gen(rng):
    spec = gtype(rng, rng.choice([1, 2, 3]))
    x = gfor(rng, spec)
    return spec, exotic(rng, x) if rng.random() < .4 else x


@P.oracle(gen=_gen, n=5000)
def element_is_not_modified(spec, x):
    """unmarshaling modifies no container of the element, whether it succeeds or not"""
    s, keep = snap(x), frozen(x)
    try:
        marsh.unmarshal(build(spec), x)
    except marsh.errors.MarshError:
        pass
    if snap(x) != s:
        return f'{x!r} was {keep!r}'


KWT = {'Dict[str, Any]': Dict[str, Any], 'Mapping[str, Any]': Mapping[str, Any], 'Any': Any, 'Dict[str, List[int]]': Dict[str, List[int]], 'dict': dict}


def _gkw(rng):
    e = rng.choice([lambda: gens.element(rng, 2), lambda: {rng.choice('abcde'): gens.element(rng, 2) for _ in range(rng.randint(0, 4))}])()
    kw = {rng.choice('abcx'): gens.element(rng, 2) for _ in range(rng.randint(0, 3))}
    return rng.choice(list(KWT)), e if rng.random() < .6 else exotic(rng, e), kw


@P.oracle(gen=_gkw, n=3000)
def keyword_arguments(n, x, kw):
    """additional keyword arguments are neither written into the element nor modified, and cast leaves its value alone"""
    s, k = snap(x), snap(kw)
    for f in (lambda: marsh.unmarshal(KWT[n], x, **kw), lambda: marsh.cast(KWT[n], x), lambda: marsh.unmarshal_args(dict, x), lambda: marsh.cast_args(dict, x)):
        try:
            f()
        except (marsh.errors.MarshError, TypeError, ValueError):
            pass
        if snap(x) != s or snap(kw) != k:
            return f'the element is {x!r} afterwards'


@P.oracle(gen=_gother, n=3000)
def other_types_do_not_modify(n, x):
    """the same for the other types of the library"""
    if _strdate(n, x):
        raise Skip
    s, keep = snap(x), repr(x)
    try:
        marsh.unmarshal(OTHER[n], x)
    except marsh.errors.MarshError:
        pass
    if snap(x) != s:
        return f'{x!r} was {keep}'


NEAR = [('lit', (-1,)), ('lit', (-2,)), ('lit', (0, False)), ('lit', (False, 0)), ('lit', (1, True)), ('lit', (True, 1)), ('lit', ('a', 'b')), ('lit', ('b', 'a')), ('union', (('int',), ('str',))), ('union', (('str',), ('int',))),
        ('union', (('bool',), ('int',))), ('union', (('int',), ('bool',))), ('lit', ('1', 1)), ('lit', (1, '1')), ('int',), ('bool',), ('any',), ('str',), ('tup', ()), ('tup', (('int',),)), ('tuplevar', ('int',))]


def near(rng):
    t = rng.choice(NEAR)
    r = rng.random()
    if r < .2:
        return 'list', t
    if r < .35:
        return 'dict', ('str',), t
    if r < .6:
        d = rng.choice([None, ('v', rng.choice(EQUAL))])
        return rng.choice(['dc', 'fn', 'nt']), (('p', t, d, 'pk'),)
    return t


def _ghist(rng):
    out = []
    for _ in range(rng.randint(2, 6)):
        s = near(rng) if rng.random() < .8 else gtype(rng, 2)
        x = rng.choice([-1, -2, '-1', '-2', 0, 1, False, True, '1', '0', 'true', 'a', 'b', 1.0, '???', [], ['1']])
        x = [x] if s[0] == 'list' else {'k': x} if s[0] == 'dict' else {'p': x} if s[0] in ('dc', 'fn', 'nt') else x
        out.append((s, x))
    if rng.random() < .5:
        out.append(out[0])
    return (out,)


@P.oracle(gen=_ghist, n=4000)
def history_does_not_matter(uses):
    """what a type does with an element is the same after any other uses of the library, also of types that are nearly equal"""
    for i, (spec, x) in enumerate(uses):
        try:
            w = wanted(spec, x)
        except TypeError:
            continue
        g = outcome(spec, x)
        if g[0] != w[0] or g[1] != w[1] and (g[0] == 'bad' or not eq(g[1], w[1])):
            return f'use {i}, {spec} of {x!r}: {g[:3]!r}, wanted {w!r}'


def _gmar(rng):
    x = exotic(rng, element(rng, 4))
    return (x,)


@P.oracle(gen=_gmar, n=3000)
def marshaling_is_pure(x):
    """marshaling modifies nothing and gives the same each time, sharing no mutable container with its input"""
    s = snap(x)
    a, b = marsh.marshal(x), marsh.marshal(x)
    if snap(x) != s:
        return 'modified'
    if not same(a, b):
        return f'{a!r} then {b!r}'
    ids = set()

    def collect(v, out):
        if is_map(v) or isinstance(v, list):
            out.add(id(v))
        for y in (v.values() if is_map(v) else v if is_seq(v) else ()):
            collect(y, out)
    collect(x, ids)
    mine = set()
    collect(a, mine)
    if ids & mine:
        return 'shares a container with its input'


FWD = ["'Leaf'", "List['Leaf']", "Optional['Leaf']", "Dict[str, 'Leaf']", "Tuple['Leaf', ...]", "Tuple[int, 'Leaf']", "Union[int, 'Leaf']", "'List[Leaf]'", "'Optional[Leaf]'", 'Leaf', 'List[Leaf]']
KINDS = ['dc', 'nt', 'td', 'fn', 'cls', 'sub']
_count = [0]


def _gfwd(rng):
    mods = []
    for i in range(rng.randint(2, 3)):
        leaf = rng.choice(['int', 'str', 'bool', 'float', 'dc', 'nt', 'dc'])
        mods.append((leaf, rng.random() < .25, [(rng.choice(KINDS), rng.choice(FWD)) for _ in range(rng.randint(1, 3))]))
    uses = [(rng.randrange(len(mods)), rng.random() < .8) for _ in range(rng.randint(2, 7))]
    return mods, [(m, rng.randrange(len(mods[m][2])), good, rng.choice(range(8))) for m, good in uses]


def _source(i, leaf, future, ss, first):
    out = ['from __future__ import annotations'] if future else []
    out += ['from typing import *', 'import dataclasses']
    if leaf == 'dc':
        out += ['@dataclasses.dataclass', 'class Leaf:', f'    m{i}: int']
    elif leaf == 'nt':
        out += ['class Leaf(NamedTuple):', f'    m{i}: int']
    else:
        out += [f'Leaf = {leaf}']
    for j, (k, t) in enumerate(ss):
        if k == 'dc':
            out += ['@dataclasses.dataclass', f'class S{j}:', f'    f: {t}', '    n: int = 3']
        elif k == 'sub':
            out += ['@dataclasses.dataclass', f'class B{j}:', f'    f: {t}', '@dataclasses.dataclass', f'class S{j}(B{j}):', '    n: int = 3']
        elif k == 'nt':
            out += [f'class S{j}(NamedTuple):', f'    f: {t}', '    n: int = 3']
        elif k == 'td':
            out += [f'class S{j}(TypedDict):', f'    f: {t}']
        elif k == 'cls':
            out += [f'class S{j}:', f'    def __init__(self, f: {t}, n: int = 3):', '        self.f, self.n = f, n']
        else:
            out += [f'def S{j}(f: {t}, n: int = 3):', '    return f']
    return '\n'.join(out)


@P.oracle(gen=_gfwd, n=500)
def names_mean_what_their_module_says(mods, uses):
    """a type that is written as text is the one of that name in the module of the class or function, whatever has been used before"""
    import sys
    import types
    _count[0] += 1
    made = []
    try:
        for i, (leaf, future, ss) in enumerate(mods):
            m = types.ModuleType(f'_vc14_{_count[0]}_{i}')
            sys.modules[m.__name__] = m
            exec(compile(_source(i, leaf, future, ss, made), m.__name__, 'exec', dont_inherit=True), vars(m))
            made.append(m)
        for n, (i, j, good, v) in enumerate(uses):
            leaf, future, ss = mods[i]
            k, t = ss[j]
            m = made[i]
            S = vars(m)[f'S{j}']
            x, w = _leafval(m, i, leaf, v) if good else ({f'm{i + 1}': 1, 'q': v}, None)
            if leaf == 'str' and not good:
                x = [v]
            x, w = _around(t, x, w)
            try:
                got = marsh.unmarshal(S, {'f': x})
                got = got['f'] if k == 'td' else got if k == 'fn' else got.f
                got = ('ok', got)
            except marsh.errors.MarshError as e:
                got = ('bad', str(e))
            if good and (got[0] != 'ok' or type(got[1]) is not type(w) or got[1] != w):
                return f'use {n}: {k} f: {t} (Leaf is {leaf}, module {i}) of {x!r}: {got!r}, wanted {w!r}'
            if not good and got[0] == 'ok':
                return f'use {n}: {k} f: {t} (Leaf is {leaf}, module {i}) accepts {x!r}: {got!r}'
    finally:
        for m in made:
            sys.modules.pop(m.__name__, None)


def _leafval(m, i, leaf, v):
    if leaf in ('dc', 'nt'):
        return {f'm{i}': v + 20}, m.Leaf(v + 20)
    return {'int': (v + 20, v + 20), 'str': (f's{v}', f's{v}'), 'bool': ('true', True), 'float': (v + .5, v + .5)}[leaf]


def _around(t, x, w):
    t = t.strip("'").replace("'", '')
    if t.startswith('List['):
        return [x], [w]
    if t.startswith('Dict['):
        return {'k': x}, {'k': w}
    if t == 'Tuple[Leaf, ...]':
        return [x, x], (w, w)
    if t == 'Tuple[int, Leaf]':
        return [4, x], (4, w)
    if t == 'Union[int, Leaf]':
        if w is not None and type(w) in (bool, int, float, str):
            raise Skip
        return x, w
    return x, w


def _gthreads(rng):
    return rng.choice([typing.List[int], typing.Dict[str, int], typing.Optional[int], complex]), rng.randint(60, 90)


@P.oracle(gen=_gthreads, n=2)
def threads_leave_nothing_behind(t, n):
    """a type that was used by many threads is used as before"""
    t = typing.Annotated[t, object()]
    make = lambda: dataclasses.make_dataclass('Used', [('x', t, None)])     # noqa: E731
    cls = make()
    go, up = threading.Event(), threading.Semaphore(0)

    def use():
        try:
            marsh.unmarshal(make(), {})
        except Exception:
            pass
        up.release()
        go.wait(60)
    old = threading.stack_size(1 << 19)
    try:
        ts = [threading.Thread(target=use) for _ in range(n)]
        for th in ts:
            th.start()
        for _ in ts:
            up.acquire(timeout=60)
    finally:
        threading.stack_size(old)
        go.set()
    for th in ts:
        th.join(60)
    limit = sys.getrecursionlimit()
    # room for an ordinary use, but not for one that passes something of every thread
    frame, depth = sys._getframe(), 0
    while frame:
        frame, depth = frame.f_back, depth + 1
    sys.setrecursionlimit(depth + 2 * n)
    try:
        return None if marsh.unmarshal(cls, {}).x is None else 'another default'
    except RecursionError:
        return f'after {n} threads have used the type, its use is nested too deeply'
    finally:
        sys.setrecursionlimit(limit)
