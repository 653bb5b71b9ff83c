"""Shared by the bounded oracles: an independent reading of the path grammar
and of element traversal, and generators of elements and of paths into them."""
import collections
import copy
import types
import marsh
from pyvc import gens
from .C01 import ref_split


def fields_of(p):
    return ref_split(p, '.')


def esc(f):
    return ''.join('\\' + c if c in '"\'\\.' else c for c in f)


def mkpath(fs):
    return '.'.join(esc(f) for f in fs)


def is_map(v):
    import collections.abc
    return isinstance(v, collections.abc.Mapping)


def is_seq(v):
    import collections.abc
    return isinstance(v, collections.abc.Sequence) and not isinstance(v, (str, bytes))


def index(f, n):
    """index named by a field of a sequence of length n, None if it names none"""
    try:
        i = int(f)
    except ValueError:
        return None
    if i < 0:
        i += n
    return i if 0 <= i else None


NOPE = object()


def follow(v, f):
    if is_map(v):
        for k in v:
            if isinstance(k, str) and k == f:
                return v[k]
        return NOPE
    if is_seq(v):
        i = index(f, len(v))
        return v[i] if i is not None and i < len(v) else NOPE
    return NOPE


def trail(v, fs):
    """elements along the fields, and how many fields could be followed"""
    out = [v]
    for f in fs:
        v = follow(v, f)
        if v is NOPE:
            break
        out.append(v)
    return out


def same(a, b):
    """equal, of the same representation (True is not 1, list is not tuple)"""
    if is_map(a) and is_map(b):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a) and type(a) is type(b)
    if is_seq(a) and is_seq(b):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or a != a and b != b)


def equiv(a, b):
    """same data: mappings by key set, sequences by items, whatever the container types and the key order"""
    if is_map(a) or is_map(b):
        return is_map(a) and is_map(b) and set(a) == set(b) and all(equiv(a[k], b[k]) for k in a)
    if is_seq(a) or is_seq(b):
        return is_seq(a) and is_seq(b) and len(a) == len(b) and all(equiv(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or a != a and b != b)


def tup(v):
    """containers as dict / tuple"""
    if is_map(v):
        return {k: tup(x) for k, x in v.items()}
    if is_seq(v):
        return tuple(tup(x) for x in v)
    return v


class Seq(collections.UserList):
    """a sequence that is neither list nor tuple"""

    def __repr__(self):
        return f'Seq({self.data!r})'


NS = dict(Seq=Seq, UserList=collections.UserList, OrderedDict=collections.OrderedDict, mappingproxy=types.MappingProxyType, UserDict=collections.UserDict, deque=collections.deque)


def exotic(rng, v):
    """the same data with other container types here and there"""
    if isinstance(v, dict):
        d = {k: exotic(rng, x) for k, x in v.items()}
        r = rng.random()
        return collections.OrderedDict(d) if r < .2 else types.MappingProxyType(d) if r < .25 else collections.UserDict(d) if r < .3 else d
    if isinstance(v, (list, tuple)):
        xs = [exotic(rng, x) for x in v]
        r = rng.random()
        return Seq(xs) if r < .2 else xs if r < .6 else collections.deque(xs) if r < .65 else collections.UserList(xs) if r < .7 else tuple(xs)
    return v


def missing_scalar(rng):
    return '???' if rng.random() < .2 else gens.scalar(rng)


def element(rng, depth=3, missing=False):
    v = gens.element(rng, depth, missing_scalar if missing else gens.scalar)
    if not is_map(v) and not is_seq(v) and rng.random() < .6:
        return element(rng, depth, missing)
    return v


def all_paths(v, pre=()):
    yield pre
    if is_map(v):
        for k in v:
            yield from all_paths(v[k], pre + (k,))
    elif is_seq(v):
        for i in range(len(v)):
            yield from all_paths(v[i], pre + (str(i),))


def a_path(rng, v):
    """fields that lead somewhere in v, often with a twist"""
    fs = list(rng.choice(list(all_paths(v))))
    r = rng.random()
    if r < .25:
        fs.append(rng.choice(['a', '0', '-1', '1', 'zz', '???', ' 1', '1_0', '+0', '١']))
    elif r < .35 and fs:
        fs[rng.randrange(len(fs))] = rng.choice(['a', '0', '-1', '2', 'zz', '-3', 'a.b'])
    elif r < .45:
        for i, f in enumerate(fs):
            if f.isdigit():
                fs[i] = str(int(f) - 1 - rng.randint(0, 2))
    elif r < .5:
        fs = [gens.key(rng) for _ in range(rng.randint(1, 3))]
    return [f for f in fs if f]


def path_text(rng, fs):
    p = mkpath(fs)
    if rng.random() < .15:
        p = rng.choice([p + '.', '.' + p, p.replace('.', '..', 1), '.', p + '\\', p + '"'])
    if rng.random() < .1 and fs:
        p = '.'.join('"%s"' % f if '"' not in f and '\\' not in f else esc(f) for f in fs)
    return p


def err_path(e):
    return fields_of(e.path)


def frozen(v):
    if is_map(v):
        return type(v)({k: frozen(v[k]) for k in v})
    if is_seq(v):
        return type(v)([frozen(x) for x in v])
    return copy.deepcopy(v)
