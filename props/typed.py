"""An independent reference of unmarshaling: type specifications, the real types
they stand for, and what unmarshaling an element must give.

A specification is a nested tuple (so that inputs can be printed and evaluated):
  ('int',) ('float',) ('bool',) ('str',) ('none',) ('any',) ('enum',) ('lit', values)
  ('list', T) ('seq', T) ('mseq', T) ('tuplevar', T) ('set', T) ('dict', K, V) ('mapping', K, V) ('defaultdict', K, V)
  ('union', Ts) ('union', Ts, '|') (written with |) ('tup', Ts) ('dc', fields) ('nt', fields) ('td', fields) ('fn', params)
A field / parameter is (name, T, default, kind); default is None or ('v', value)
or ('f', value) (a factory); kind is one of po pk va ko vk iv (init variable) nr (not required)."""
import collections
import collections.abc
import copy
import dataclasses
import enum
import functools
import operator
import types
import typing
from typing import *  # noqa
import marsh
from pyvc import gens
from .common import is_map, is_seq, element
from .C08 import expect, REJ, alike, Color, lit_expect

MISS = marsh.MISSING


class Bad(Exception):
    """rejected: fields of the path, and is a missing value the reason"""

    def __init__(self, path=(), missing=False):
        super().__init__(path, missing)
        self.path, self.missing = tuple(path), missing


class Rec:
    """what a constructor or function received"""

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Rec) and eq(self.d, o.d)

    def __repr__(self):
        return f'Rec({self.d!r})'


def eq(a, b):
    """same value of the same type, containers included"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (dict, types.MappingProxyType)):
        return list(map(repr, a)) == list(map(repr, b)) and all(eq(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and a == b
    if isinstance(a, Rec):
        return eq(a.d, b.d)
    if isinstance(a, float):
        return alike(a, b)
    return a == b


# ------------------------------------------------------------- real types
_built = {}
SIMPLE = dict(int=int, float=float, bool=bool, str=str, none=None, any=Any, enum=Color)


def build(spec):
    """the real type"""
    r = repr(spec)
    if r not in _built:
        if len(_built) > 600:
            _built.clear()
        _built[r] = _build(spec)
    return _built[r]


def _default(ns, i, d):
    if d is None:
        return ''
    ns[f'D{i}'] = d[1]
    return f'D{i}'


def _fresh():
    """typing remembers equal aliases: List[Union[int, str]] may give back List[Union[str, int]]"""
    for f in typing._cleanups:
        f()


def _build(spec):
    k = spec[0]
    if k in SIMPLE:
        return SIMPLE[k]
    for t in spec[1:] if k in ('list', 'seq', 'mseq', 'set', 'tuplevar', 'dict', 'mapping', 'defaultdict') else spec[1] if k in ('union', 'tup') else ():
        build(t)
    _fresh()
    if k in SIMPLE:
        return SIMPLE[k]
    if k == 'lit':
        return Literal[tuple(spec[1])]
    if k in ('list', 'seq', 'mseq', 'set'):
        return {'list': List, 'seq': Sequence, 'mseq': MutableSequence, 'set': Set}[k][build(spec[1])]
    if k == 'tuplevar':
        return Tuple[build(spec[1]), ...]
    if k in ('dict', 'mapping', 'defaultdict'):
        return {'dict': Dict, 'mapping': Mapping, 'defaultdict': DefaultDict}[k][build(spec[1]), build(spec[2])]
    if k == 'union':
        ts = tuple(build(t) for t in spec[1])
        if len(spec) > 2:
            try:
                return functools.reduce(operator.or_, ts)
            except TypeError:       # not every type has the operator
                pass
        return Union[ts]
    if k == 'tup':
        return Tuple[tuple(build(t) for t in spec[1])] if spec[1] else Tuple[()]
    ns = dict(dataclasses=dataclasses, NamedTuple=NamedTuple, TypedDict=typing.TypedDict, NotRequired=typing.NotRequired, Rec=Rec, InitVar=dataclasses.InitVar)
    src = []
    for i, (n, t, d, kind) in enumerate(spec[1]):
        ns[f'T{i}'] = build(t)
        if d is not None:
            ns[f'D{i}'] = d[1]
            ns[f'F{i}'] = (lambda v: lambda: copy.deepcopy(v))(d[1])
    if k == 'dc':
        src += ['@dataclasses.dataclass', 'class X:', '    pass']
        iv = []
        for i, (n, t, d, kind) in enumerate(spec[1]):
            ann = f'InitVar[T{i}]' if kind == 'iv' else f'T{i}'
            opts = ([f'default=D{i}'] if d and d[0] == 'v' else [f'default_factory=F{i}'] if d else []) + (['kw_only=True'] if kind == 'ko' else [])
            src.append(f'    {n}: {ann} = dataclasses.field({", ".join(opts)})')
            if kind == 'iv':
                iv.append(n)
        if iv:
            src += [f'    def __post_init__(self, {", ".join(iv)}):'] + [f'        object.__setattr__(self, "iv_{n}", {n})' for n in iv]
    elif k == 'nt':
        src += ['class X(NamedTuple):', '    """a"""'] + [f'    {n}: T{i}' + (f' = D{i}' if d else '') for i, (n, t, d, kind) in enumerate(spec[1])]
    elif k == 'td':
        src += ['class X(TypedDict):', '    """a"""'] + [f'    {n}: ' + (f'NotRequired[T{i}]' if kind == 'nr' else f'T{i}') for i, (n, t, d, kind) in enumerate(spec[1])]
    else:
        ps, names = [], []
        seen_star = False
        for i, (n, t, d, kind) in enumerate(spec[1]):
            if kind != 'po' and i and spec[1][i - 1][3] == 'po':
                ps.append('/')
            if kind == 'ko' and not seen_star:
                ps.append('*')
                seen_star = True
            if kind == 'va':
                seen_star = True
            ps.append({'va': '*', 'vk': '**'}.get(kind, '') + f'{n}: T{i}' + (f' = D{i}' if d else ''))
            names.append(n)
        if spec[1] and spec[1][-1][3] == 'po':
            ps.append('/')
        src += [f'def X({", ".join(ps)}):', f'    return Rec(dict({", ".join(f"{n}={n}" for n in names)}))']
    exec('\n'.join(src), ns)
    return ns['X']


def view(spec, v):
    """a comparable view of a result of unmarshaling"""
    k = spec[0]
    if k == 'dc' and dataclasses.is_dataclass(v) and not isinstance(v, type):
        return Rec({n: view(t, getattr(v, 'iv_' + n if kind == 'iv' else n)) for n, t, d, kind in spec[1]})
    if k == 'nt' and isinstance(v, tuple) and hasattr(v, '_fields'):
        return Rec({n: view(t, getattr(v, n)) for n, t, d, kind in spec[1]})
    if k == 'td' and isinstance(v, dict):
        ts = {n: t for n, t, d, kind in spec[1]}
        return {n: view(ts[n], v[n]) if n in ts else v[n] for n in v}
    if k == 'fn' and isinstance(v, Rec):
        return Rec({n: tuple(view(t, x) for x in v.d[n]) if kind == 'va' else {y: view(t, x) for y, x in v.d[n].items()} if kind == 'vk' else view(t, v.d[n]) for n, t, d, kind in spec[1]})
    if k in ('list', 'seq', 'mseq', 'tuplevar') and isinstance(v, (list, tuple)):
        return type(v)(view(spec[1], x) for x in v)
    if k == 'tup' and isinstance(v, tuple) and len(v) == len(spec[1]):
        return tuple(map(view, spec[1], v))
    if k == 'defaultdict' and isinstance(v, collections.defaultdict):
        return Rec(dict(default={x: view(spec[2], y) for x, y in v.items()}))
    if k in ('dict', 'mapping') and isinstance(v, (dict, types.MappingProxyType)):
        d = {x: view(spec[2], y) for x, y in v.items()}
        return types.MappingProxyType(d) if isinstance(v, types.MappingProxyType) else d
    if k == 'union':
        return viewany(v)
    return v


def viewany(v):
    """view without a specification (members of unions are built on the fly)"""
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        d = {f.name: viewany(getattr(v, f.name)) for f in dataclasses.fields(v)}
        d.update({k[3:]: viewany(x) for k, x in vars(v).items() if k.startswith('iv_')})
        return Rec({k: d[k] for k in sorted(d)})
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return Rec({k: viewany(getattr(v, k)) for k in sorted(v._fields)})
    if isinstance(v, collections.defaultdict):
        return Rec(dict(default={x: viewany(y) for x, y in v.items()}))
    if isinstance(v, Rec):
        return Rec({k: viewany(v.d[k]) for k in sorted(v.d)})
    if isinstance(v, types.MappingProxyType):
        return types.MappingProxyType({k: viewany(x) for k, x in v.items()})
    if isinstance(v, dict):
        return {k: viewany(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(map(viewany, v))
    return v


# -------------------------------------------------------------- reference
def is_missing(x):
    return isinstance(x, str) and x == MISS


def has_missing(x):
    if is_map(x):
        return any(has_missing(k) or has_missing(x[k]) for k in x)
    if is_seq(x):
        return any(map(has_missing, x))
    return is_missing(x)


def at(field, f, *a):
    try:
        return f(*a)
    except Bad as e:
        raise Bad(((str(field),) if str(field) else ()) + e.path, e.missing)


def give(d):
    return copy.deepcopy(d[1])


def ref(spec, x, default=None):
    """what unmarshaling x must give; Bad when it must be rejected"""
    k = spec[0]
    m = is_missing(x)
    if m and default is not None and k != 'none':
        return give(default)
    if k in ('int', 'float', 'bool', 'str'):
        if m:
            raise Bad((), True)
        r = expect(SIMPLE[k], x)
        if r is REJ:
            raise Bad()
        return r
    if k == 'none':
        if x is None or m:
            return None
        raise Bad()
    if k == 'any':
        if has_missing(x):
            raise Bad((), True)
        return x
    if k == 'enum':
        if m:
            raise Bad((), True)
        for mem in Color:
            if lit_expect((mem.name,), x) is not REJ or lit_expect((mem.value,), x) is not REJ:
                return mem
        raise Bad()
    if k == 'lit':
        if m:
            raise Bad((), len(spec[1]) == 1)
        r = lit_expect(spec[1], x)
        if r is REJ:
            raise Bad()
        return r
    if k in ('list', 'seq', 'mseq', 'tuplevar', 'set'):
        make = {'list': list, 'seq': tuple, 'mseq': list, 'tuplevar': tuple, 'set': set}[k]
        if m:
            return make()
        if not is_seq(x):
            raise Bad()
        return make([at(i, ref, spec[1], x[i]) for i in range(len(x))])
    if k in ('dict', 'mapping', 'defaultdict'):
        make = {'dict': dict, 'mapping': types.MappingProxyType, 'defaultdict': lambda d: Rec(dict(default=d))}[k]
        if m:
            return make({})
        if not is_map(x):
            raise Bad()
        out = {}
        for key in x:
            kk = at(key, ref, spec[1], key)
            out[kk] = at(key, ref, spec[2], x[key])
        return make(out)
    if k == 'union':
        if len(spec[1]) == 2 and ('none',) in spec[1]:
            other = spec[1][0] if spec[1][1] == ('none',) else spec[1][1]
            try:
                return refany(other, x)
            except Bad:
                if x is None or m:
                    return None
                raise
        for t in spec[1]:
            try:
                return refany(t, x)
            except (Bad, TypeError):
                pass
        raise Bad((), m)
    if k == 'tup':
        ps = [(str(i), t, None, 'po') for i, t in enumerate(spec[1])]
        return tuple(bind(ps, x, m).values())
    if k == 'td':
        ps = [p for p in spec[1] if p[3] != 'nr'] + [(n, t, ('v', ABSENT), 'pk') for n, t, d, kind in spec[1] if kind == 'nr']
        return {n: v for n, v in bind(ps, x, m).items() if v is not ABSENT}
    return Rec(bind(spec[1], x, m))


class _Absent:
    def __deepcopy__(self, memo):
        return self


ABSENT = _Absent()


def refany(t, x):
    return _viewspec(t, ref(t, x))


def _viewspec(t, v):
    return viewany(v)


def bind(params, x, m):
    """parameters and the values they get"""
    if m:
        x = {}
    if is_map(x):
        named, items = dict(x), []
    elif is_seq(x):
        named, items = {}, list(x)
    else:
        raise Bad()
    order = ('po', 'pk', 'iv', 'nr', 'va', 'ko', 'vk') if any(p[3] == 'va' for p in params) else None
    ps = sorted(params, key=lambda p: {'po': 0, 'va': 2, 'ko': 3, 'vk': 4}.get(p[3], 1)) if any(p[3] in ('va', 'vk', 'po') for p in params) else list(params)
    got = {}
    for n, t, d, kind in ps:
        if kind == 'va':
            got[n] = tuple(at(n, at, i, ref, t, y) for i, y in enumerate(items))
            items = []
        elif kind == 'vk':
            got[n] = {}
            for key in list(named):
                got[n][key] = at(n, at, key, ref, t, named.pop(key))
        elif items and kind != 'ko':
            got[n] = at(n, ref, t, items.pop(0), d)
        else:
            got[n] = at(n, ref, t, named.pop(n, MISS), d)
    if named or items:
        raise Bad()
    if any(kind == 'vk' and not all(isinstance(y, str) for y in got[n]) for n, t, d, kind in params):
        raise TypeError('keywords must be strings')
    return {n: got[n] for n, t, d, kind in params}


# -------------------------------------------------------------- generation
NAMES = ['a', 'b', 'c', 'x1', 'name', 'self_', 'é']
HASHABLE = [('int',), ('float',), ('bool',), ('str',), ('enum',), ('lit', (1, 'a')), ('any',)]
KEYS = [('str',), ('str',), ('int',), ('any',), ('bool',), ('enum',), ('lit', ('a', 'b', '0')), ('float',)]


def gtype(rng, depth=2):
    r = rng.random()
    if depth <= 0 or r < .3:
        return rng.choice([('int',), ('int',), ('float',), ('bool',), ('str',), ('str',), ('none',), ('any',), ('enum',), ('lit', ('a', 1, True)), ('lit', ('x',)), ('lit', (2, 'b'))])
    k = rng.choice(['list', 'seq', 'mseq', 'tuplevar', 'set', 'dict', 'dict', 'mapping', 'defaultdict', 'union', 'union', 'tup', 'dc', 'dc', 'nt', 'td', 'fn', 'fn'])
    if k == 'set':
        return k, rng.choice(HASHABLE[:5])
    if k in ('list', 'seq', 'mseq', 'tuplevar'):
        return k, gtype(rng, depth - 1)
    if k in ('dict', 'mapping', 'defaultdict'):
        return k, rng.choice(KEYS), gtype(rng, depth - 1)
    if k == 'union':
        if rng.random() < .5:
            ts = [gmember(rng, depth - 1), ('none',)]
            rng.shuffle(ts)
        else:
            ts = []
            for _ in range(rng.choice([2, 2, 3])):
                t = gmember(rng, depth - 1)
                if t not in ts:
                    ts.append(t)
            if rng.random() < .3 and ('none',) not in ts:
                ts.append(('none',))
        return (k, tuple(ts)) if len(ts) > 1 else ts[0]
    if k == 'tup':
        return k, tuple(gtype(rng, depth - 1) for _ in range(rng.randint(0, 3)))
    return k, gparams(rng, k, depth)


def gmember(rng, depth):
    while True:
        t = gtype(rng, depth)
        if t[0] not in ('union', 'any', 'none'):
            return t


def gdefault(rng, kind='v'):
    v = rng.choice([0, 1, True, 1.0, 'd', None, 2.5, '', (1, 2)] if kind == 'v' else [[], [1], {'a': 1}, 5])
    return kind, v


def gparams(rng, k, depth):
    names = rng.sample(NAMES, rng.randint(0, 4))
    out, dflt = [], False
    n = len(names)
    if k == 'fn':
        kinds = sorted(rng.choice(['po', 'pk', 'pk', 'ko', 'va', 'vk']) for _ in range(n))
        kinds.sort(key=['po', 'pk', 'va', 'ko', 'vk'].index)
        for one in ('va', 'vk'):
            while kinds.count(one) > 1:
                kinds.remove(one)
    for i, name in enumerate(names):
        if k == 'fn':
            if i >= len(kinds):
                break
            kind = kinds[i]
        elif k == 'dc':
            kind = rng.choice(['pk', 'pk', 'pk', 'iv', 'ko'])
        elif k == 'td':
            kind = rng.choice(['pk', 'pk', 'nr'])
        else:
            kind = 'pk'
        t = gtype(rng, depth - 1)
        d = None
        if k != 'td' and kind not in ('va', 'vk') and (rng.random() < .4 or dflt and kind != 'ko'):
            d = gdefault(rng, 'f' if k == 'dc' and kind != 'iv' and rng.random() < .3 else 'v')
            if kind != 'ko':
                dflt = True
        out.append((name, t, d, kind))
    return tuple(out)


def gfor(rng, spec, depth=3):
    """an element that often fits"""
    k = spec[0]
    r = rng.random()
    if r < .07:
        return element(rng, 2)
    if r < .1:
        return MISS
    if r < .12:
        return None
    if k in ('int', 'float', 'bool', 'str'):
        v = rng.choice({'int': [0, 1, -7, '5', 2.0, '1.0'], 'float': [0.5, '1e3', 2, -1.5], 'bool': [True, False, 'yes', 'off', 0, 1], 'str': ['a', '', 'x.y', 5, True]}[k])
        return v
    if k == 'none':
        return None
    if k == 'any':
        return element(rng, 2, missing=rng.random() < .2)
    if k == 'enum':
        m = rng.choice(list(Color))
        return rng.choice([m.name, m.value])
    if k == 'lit':
        return rng.choice(spec[1])
    if k in ('list', 'seq', 'mseq', 'tuplevar', 'set'):
        xs = [gfor(rng, spec[1]) for _ in range(rng.choice([0, 1, 2, 3]))]
        return xs if rng.random() < .7 else tuple(xs)
    if k in ('dict', 'mapping', 'defaultdict'):
        return {str(gkey(rng, spec[1])) if rng.random() < .8 else gkey(rng, spec[1]): gfor(rng, spec[2]) for _ in range(rng.choice([0, 1, 2, 3]))}
    if k == 'union':
        return gfor(rng, rng.choice(spec[1]))
    ps = [(str(i), t, None, 'po') for i, t in enumerate(spec[1])] if k == 'tup' else list(spec[1])
    if rng.random() < .6 if k != 'tup' else rng.random() < .15:
        d = {}
        for n, t, dd, kind in ps:
            if kind == 'va':
                continue
            if kind == 'vk':
                for y in rng.sample(['k', 'l', 'm.n', '', '0'], rng.randint(0, 2)):
                    d[y] = gfor(rng, t)
            elif rng.random() < .85:
                d[n] = gfor(rng, t)
        if rng.random() < .1:
            d[rng.choice(['zz', 'args', 'a', '*args', '0'])] = 1
        items = list(d.items())
        if rng.random() < .3:
            rng.shuffle(items)
        return dict(items)
    xs = [gfor(rng, t) for n, t, dd, kind in ps if kind not in ('va', 'ko', 'vk')]
    if rng.random() < .25 and xs:
        xs.pop()
    for n, t, dd, kind in ps:
        if kind == 'va':
            xs += [gfor(rng, t) for _ in range(rng.randint(0, 3))]
    if rng.random() < .1:
        xs.append(1)
    return xs if rng.random() < .7 else tuple(xs)


def gkey(rng, t):
    k = t[0]
    if k == 'int':
        return rng.choice([1, 2, -1, 10])
    if k == 'float':
        return rng.choice([1.5, 2, '1e2'])
    if k == 'bool':
        return rng.choice(['true', 'off', 'x'])
    if k == 'enum':
        return rng.choice(['RED', 'GREEN', '1', 'nope'])
    if k == 'lit':
        return rng.choice(t[1] + ('zz',))
    return gens.key(rng) if rng.random() < .7 else rng.choice(['a', 'b', MISS, 5])


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def outcome(spec, x):
    """(kind, view or path, missing, error)"""
    try:
        return 'ok', view(spec, marsh.unmarshal(build(spec), x)), None, None
    except marsh.errors.MarshError as e:
        return 'bad', tuple(marsh.path.split(e.path)), isinstance(e, marsh.errors.MissingValueError), e


def wanted(spec, x):
    try:
        r = ref(spec, x)
        return 'ok', viewany(r) if spec[0] == 'union' else view(spec, r) if spec[0] != 'any' else r, None
    except Bad as e:
        return 'bad', e.path, e.missing
