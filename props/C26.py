"""Unmarshaling what marshaling gives yields the same value again."""
import collections
import dataclasses
import datetime
import enum
import types
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from . import typed
from .typed import gtype, gfor, outcome, eq, build, view
from .C15 import Color, SE, IE

P = Prop('C26', modules=['roundtrip'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling', 'types'],
         contracts=['primitive_marshal', 'enum_marshal', 'sequence_marshal', 'iterable_marshal', 'mapping_marshal', 'cast_primitive_bool', 'cast_primitive_int', 'cast_primitive_float', 'cast_primitive_str',
                    'enum_value_unmarshal', 'enum_unmarshal', 'sequence_unmarshal', 'mapping_unmarshal'],
         lemmas=['C26_bool', 'C26_int', 'C26_float', 'C26_str', 'C26_enum', 'C26_seq', 'C26_map'],
         rule='random types and values of them; the values of random types that unmarshaling random elements gives',
         limits=['a datetime.date is unmarshaled to a datetime (a subclass), so dates are left out', 'dataclasses, namedtuples, typed dicts, bytes, complex numbers, slices and dates are covered by the bounded oracles only'])
P.replay_ns = NS


def fits(spec, top=True):
    """types of which a value says everything (no Any, no functions, no unions but Optional)"""
    k = spec[0]
    if k in ('any', 'fn'):
        return False
    if k == 'union':
        return len(spec[1]) == 2 and ('none',) in spec[1] and all(map(fits, spec[1]))
    if k in ('dc', 'nt', 'td'):
        return all(fits(t) and kind != 'iv' and d is None for n, t, d, kind in spec[1])
    if k == 'tup':
        return all(map(fits, spec[1]))
    return all(fits(t) for t in spec[1:] if isinstance(t, tuple)) if k != 'lit' else True


def plain(spec):
    """without defaults, which need not be of the type"""
    if not isinstance(spec, tuple) or spec[0] == 'lit':
        return spec
    if spec[0] in ('dc', 'nt', 'td', 'fn'):
        return spec[0], tuple((n, plain(t), None, kind) for n, t, d, kind in spec[1])
    return tuple(plain(t) if isinstance(t, tuple) else t for t in spec) if spec[0] not in ('union', 'tup') else (spec[0], tuple(map(plain, spec[1])))


def _gen(rng):
    while True:
        spec = plain(gtype(rng, 3))
        if fits(spec):
            return spec, gfor(rng, spec)


@P.oracle(gen=_gen, n=6000)
def again(spec, x):
    """a value that was unmarshaled is marshaled to an element that unmarshals to an equal value of the same type"""
    g = outcome(spec, x)
    if g[0] != 'ok':
        raise Skip
    v = marsh.unmarshal(build(spec), x)
    e = marsh.marshal(v)
    if marsh.element.has_missing(e):
        raise Skip
    h = outcome(spec, e)
    if h[0] != 'ok' or not eq(view(spec, v), h[1]):
        return f'{v!r} marshals to {e!r}, which gives {h!r}'


@dataclasses.dataclass
class D:
    i: int
    o: Optional['D'] = None
    hidden: int = dataclasses.field(default=3, init=False)


@dataclasses.dataclass
class Sub(D):
    f: float = dataclasses.field(default_factory=lambda: .5, kw_only=True)


class Cross(enum.Enum):
    A = 'B'
    B = 'C'
    C = 'A'
    N1 = 'N2'
    N2 = 1


class Mode(enum.IntFlag):
    R = 1
    W = 2
    X = 4


class N(NamedTuple):
    b: bytes
    c: Color = Color.RED


LEAVES = [
    ('int', lambda r: r.choice([0, 1, -1, 2 ** 70, -2 ** 53 - 1, 2 ** 53 + 1, r.randint(-300, 300), r.getrandbits(90)])), ('float', lambda r: r.choice([0.1, -2.5e-300, 1e22, float('inf'), float('-inf'), 1 / 3, 5e-324, 3.0, 1.0, 0.0, -1.0, r.random(), r.gauss(0, 1e9)])),
    ('bool', lambda r: r.random() < .5), ('str', lambda r: r.choice([gens.key(r), 'null', 'true', '1', '[]', 'a.b', '"', ' ', '\n', '????', 'None'])),
    ('bytes', lambda r: bytes(r.randrange(256) for _ in range(r.randint(0, 9)))), ('Color', lambda r: r.choice(list(Color))), ('SE', lambda r: r.choice(list(SE))), ('IE', lambda r: r.choice(list(IE))), ('Cross', lambda r: r.choice(list(Cross))), ('Mode', lambda r: r.choice(list(Mode))),
    ('complex', lambda r: complex(r.choice([0.0, 1.5, -2.0, 1.0, 5e-324, 1e300]), r.choice([0.0, 2.5, -1.0, 1.0, 5e-324, -1e300, float('inf')]))), ('slice', lambda r: slice(*(r.choice([None, 0, 1, -1, 2, 5, r.randint(-99, 99)]) for _ in range(3)))),
    ('type(None)', lambda r: None), ("Literal['a', 1, None, True]", lambda r: r.choice(['a', 1])), ("Literal['b']", lambda r: 'b'),
    ('datetime.datetime', lambda r: datetime.datetime(r.randint(1950, 2050), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 5, 123456]))),
    ('datetime.time', lambda r: datetime.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))),
    ('D', lambda r: r.choice([D(1), D(-5, D(2)), Sub(1) and D(2, D(3, D(4)))])), ('Sub', lambda r: Sub(1, D(2), f=r.random())), ('N', lambda r: N(bytes([r.randrange(256)]), r.choice(list(Color)))),
]
LEAVES = dict(LEAVES)
HASH = ['int', 'float', 'bool', 'str', 'bytes', 'Color', 'Cross', 'SE', 'IE']


def gtv(rng, depth=2):
    """(source of a type, function that makes a value of it)"""
    if depth == 0 or rng.random() < .35:
        n = rng.choice(list(LEAVES))
        return n, LEAVES[n]
    k = rng.choice(['List', 'Tuple', 'Sequence', 'Set', 'FrozenSet', 'Dict', 'Dict', 'Mapping', 'DefaultDict', 'OrderedDict', 'Optional', 'Tup', 'Deque', 'MutableSequence', 'MutableMapping'])
    m = lambda: rng.choice([0, 1, 2, 3])
    if k in ('Set', 'FrozenSet'):
        n = rng.choice(HASH[:7])
        return f'Set[{n}]', lambda r: {LEAVES[n](r) for _ in range(r.choice([0, 1, 2, 3]))}
    if k in ('Dict', 'Mapping', 'DefaultDict', 'OrderedDict', 'MutableMapping'):
        n = rng.choice(HASH)
        t, f = gtv(rng, depth - 1)
        mk = {'DefaultDict': lambda d: collections.defaultdict(None, d), 'OrderedDict': collections.OrderedDict}.get(k, dict)
        return f'{k}[{n}, {t}]', lambda r: mk({LEAVES[n](r): f(r) for _ in range(r.choice([0, 1, 2, 3]))})
    t, f = gtv(rng, depth - 1)
    if k == 'Optional':
        return f'Optional[{t}]', lambda r: f(r) if r.random() < .7 else None
    if k == 'Tup':
        t2, f2 = gtv(rng, depth - 1)
        return f'Tuple[{t}, {t2}]', lambda r: (f(r), f2(r))
    if k == 'Tuple':
        return f'Tuple[{t}, ...]', lambda r: tuple(f(r) for _ in range(r.choice([0, 1, 2, 3])))
    return f'{k}[{t}]', lambda r: {'List': list, 'MutableSequence': list, 'Deque': collections.deque}.get(k, tuple)(f(r) for _ in range(r.choice([0, 1, 2, 3])))


def _gseed(rng):
    return (rng.randrange(10 ** 9),)


def like(a, b):
    """equal, of the same type (mappings of a Mapping type may be of any type)"""
    if is_map(a) and is_map(b):
        if type(a) is collections.OrderedDict and type(b) not in (collections.OrderedDict, types.MappingProxyType):
            return False
        return list(map(repr, a)) == list(map(repr, b)) and all(like(x, y) for x, y in zip(a.values(), b.values()))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(map(like, a, b))
    return a == b


@P.oracle(gen=_gseed, n=4000)
def values(seed):
    """a random value of a random type survives the round trip"""
    import random
    rng = random.Random(seed)
    t, f = gtv(rng)
    v = f(rng)
    try:
        e = marsh.marshal(v)
        w = marsh.unmarshal(eval(t), e)
    except marsh.errors.MarshError as err:
        return f'{t}: {v!r}: {err!r}'
    if not like(v, w):
        return f'{t}: {v!r} marshals to {e!r}, which gives {w!r}'
