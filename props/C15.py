"""Marshaling gives a plain element that holds exactly the data of the value."""
import base64
import collections
import dataclasses
import datetime
import enum
import types
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS, Seq

P = Prop('C15', modules=['marshaling'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured'],
         contracts=['iterable_marshal', 'sequence_marshal', 'mapping_marshal', 'primitive_marshal', 'none_marshal', 'dataclass_marshal', 'namedtuple_marshal', 'enum_marshal',
                    'bytes_marshal', 'slice_marshal', 'complex_marshal', 'unmarshal', 'cast'],
         lemmas=['ldrop_step', 'ldrop_end', 'ldrop_0', 'ml_map_app'],
         rule='random values: primitives and instances of their subclasses, enums, bytes, complex numbers, slices, dates, dataclasses, namedtuples and all kinds of sequences, mappings and iterables, nested',
         limits=['keys of mappings whose text is equal (1 and "1") collide, the last one wins', 'the schemas for loggers, omegaconf containers, dates and literals are covered by the bounded oracle only'])
P.replay_ns = NS


class Color(enum.Enum):
    RED = 1
    GREEN = 'g'
    ROJO = 1


class SE(str, enum.Enum):
    A = 'x'
    B = 'A'


class IE(enum.IntEnum):
    ONE = 1
    TWO = 2


class Flag(enum.Flag):
    A = 1
    B = 2


class MyInt(int):
    def __str__(self):
        return 'my'


class MyFloat(float):
    def __repr__(self):
        return 'my'


class MyStr(str):
    def __str__(self):
        return 'my'


@dataclasses.dataclass
class D0:
    pass


@dataclasses.dataclass
class D2:
    a: Any
    b: Any = None
    hidden: Any = dataclasses.field(default=7, init=False)


@dataclasses.dataclass
class D3(D2):
    name: Any = 3
    kw: Any = dataclasses.field(default=4, kw_only=True, repr=False, compare=False)


@dataclasses.dataclass(frozen=True)
class DF:
    z: Any
    y: Any


@dataclasses.dataclass
class DL(list):
    """a dataclass that is a sequence as well"""
    a: Any


class NT(NamedTuple):
    a: Any
    b: Any = 1


NT2 = collections.namedtuple('NT2', 'x y z')


class Prot:
    """a mapping by protocol only"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __contains__(self, k):
        return k in self.d

    def get(self, k, default=None):
        return self.d.get(k, default)

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()


class Old:
    """an iterable by the old protocol"""

    def __init__(self, xs):
        self.xs = list(xs)

    def __getitem__(self, i):
        return self.xs[i]


class OldLen(Old):
    def __len__(self):
        return len(self.xs)


DCS = {'D0': (D0, ()), 'D2': (D2, ('a', 'b')), 'D3': (D3, ('a', 'b', 'name', 'kw')), 'DF': (DF, ('z', 'y')), 'DL': (DL, ('a',))}
NTS = {'NT': (NT, ('a', 'b')), 'NT2': (NT2, ('x', 'y', 'z'))}
SEQS = {'list': list, 'tuple': tuple, 'Seq': Seq, 'deque': collections.deque, 'UserList': collections.UserList, 'gen': lambda xs: (x for x in xs), 'iter': iter, 'Old': Old, 'OldLen': OldLen,
        'map': lambda xs: map(lambda x: x, xs), 'view': lambda xs: {i: x for i, x in enumerate(xs)}.values(), 'sub': type('sub', (list,), {}), 'subt': type('subt', (tuple,), {})}
MAPS = {'dict': dict, 'OrderedDict': collections.OrderedDict, 'UserDict': collections.UserDict, 'proxy': types.MappingProxyType, 'defaultdict': lambda d: collections.defaultdict(int, d),
        'chain': lambda d: collections.ChainMap(d), 'Prot': Prot, 'sub': type('subd', (dict,), {})}
LEAF = {'RED': (Color.RED, 'RED'), 'GREEN': (Color.GREEN, 'GREEN'), 'ROJO': (Color.ROJO, 'RED'), 'SA': (SE.A, 'x'), 'SB': (SE.B, 'A'), 'ONE': (IE.ONE, 1), 'TWO': (IE.TWO, 2), 'FA': (Flag.A, 'A'),
        'mi': (MyInt(5), 5), 'mf': (MyFloat(1.5), 1.5), 'ms': (MyStr('q.r'), 'q.r'), 'none': (None, None),
        'date': (datetime.date(2020, 2, 29), '2020-02-29'), 'time': (datetime.time(1, 2, 3, 4), '01:02:03.000004'), 'dt': (datetime.datetime(2020, 1, 2, 3), '2020-01-02T03:00:00'),
        'tz': (datetime.datetime(2020, 1, 2, 3, tzinfo=datetime.timezone.utc), '2020-01-02T03:00:00+00:00'), 'range': (range(2, 6, 2), (2, 4)), 'set': ({3}, (3,)), 'fs': (frozenset(['a']), ('a',)), 'eset': (set(), ())}
KEYS = {'RED': (Color.RED, 'RED'), 'SA': (SE.A, 'x'), 'TWO': (IE.TWO, '2'), 'by': (b'k\xff', 'a_8='), 'i': (17, '17'), 'f': (1.5, '1.5'), 't': (True, 'True'), 'n': (None, 'None')}
BAD = {'obj': object(), 'cls': D2, 'fn': len, 'mod': types}


def make(s):
    k = s[0]
    if k == 'p':
        return s[1]
    if k == 'leaf':
        return LEAF[s[1]][0]
    if k == 'bad':
        return BAD[s[1]]
    if k == 'bytes':
        return s[1]
    if k == 'slice':
        return slice(*s[1:])
    if k == 'complex':
        return complex(*s[1:])
    if k == 'seq':
        return SEQS[s[1]]([make(x) for x in s[2]])
    if k == 'map':
        return MAPS[s[1]]({(KEYS[n[1]][0] if isinstance(n, tuple) else n): make(x) for n, x in s[2]})
    if k == 'dc':
        c, fs = DCS[s[1]]
        return c(**dict(zip(fs, map(make, s[2]))))
    c, fs = NTS[s[1]]
    return c(*map(make, s[2]))


class Bad(Exception):
    pass


def ref(s):
    k = s[0]
    if k == 'p':
        return s[1]
    if k == 'leaf':
        return LEAF[s[1]][1]
    if k == 'bad':
        raise Bad
    if k == 'bytes':
        return base64.b64encode(s[1]).decode().replace('+', '-').replace('/', '_')
    if k == 'slice':
        return dict(start=s[1], stop=s[2], step=s[3])
    if k == 'complex':
        return s[1] if s[2] == 0 else dict(real=s[1], imag=s[2])
    if k == 'seq':
        return tuple(map(ref, s[2]))
    if k == 'map':
        return {(KEYS[n[1]][1] if isinstance(n, tuple) else n): ref(x) for n, x in s[2]}
    fs = (DCS if k == 'dc' else NTS)[s[1]][1]
    return dict(zip(fs, map(ref, s[2])))


def gvalue(rng, depth=3):
    r = rng.random()
    if depth <= 0 or r < .3:
        r = rng.random()
        if r < .45:
            return 'p', gens.scalar(rng)
        if r < .75:
            return 'leaf', rng.choice(list(LEAF))
        if r < .83:
            return 'bytes', bytes(rng.randrange(256) for _ in range(rng.randint(0, 5)))
        if r < .9:
            return 'slice', rng.choice([None, 0, 1, -3]), rng.choice([None, 0, 5]), rng.choice([None, 2, -1])
        if r < .98:
            return 'complex', rng.choice([0.0, 1.5, -2.0]), rng.choice([0.0, 1.0, -0.5])
        return 'bad', rng.choice(list(BAD))
    if r < .6:
        return 'seq', rng.choice(list(SEQS)), tuple(gvalue(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3])))
    if r < .8:
        ks = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            n = ('k', rng.choice(list(KEYS))) if rng.random() < .25 else gens.key(rng)
            if (KEYS[n[1]][1] if isinstance(n, tuple) else n) not in [KEYS[m[1]][1] if isinstance(m, tuple) else m for m in ks]:
                ks.append(n)
        return 'map', rng.choice(list(MAPS)), tuple((n, gvalue(rng, depth - 1)) for n in ks)
    if r < .92:
        n = rng.choice(list(DCS))
        return 'dc', n, tuple(gvalue(rng, depth - 1) for _ in DCS[n][1])
    n = rng.choice(list(NTS))
    return 'nt', n, tuple(gvalue(rng, depth - 1) for _ in NTS[n][1])


def plain(x):
    """only None, base primitives, dicts with text keys and tuples (or lists)"""
    if type(x) is dict:
        return all(type(k) is str and plain(v) for k, v in x.items())
    if type(x) in (tuple, list):
        return all(map(plain, x))
    return x is None or type(x) in (bool, int, float, str)


@P.oracle(gen=lambda rng: (gvalue(rng),), n=8000)
def element_of(s):
    """the element has the data of the value, in order, in plain containers; a value without a schema raises MarshalError"""
    try:
        want = ref(s)
    except Bad:
        want = Bad
    try:
        got = marsh.marshal(make(s))
    except marsh.errors.MarshalError as e:
        return None if want is Bad else f'{e!r}'
    if want is Bad:
        return f'accepted: {got!r}'
    if not plain(got):
        return f'not plain: {got!r}'
    if not same(tup(got), tup(want)):
        return f'{got!r}, wanted {want!r}'


class Asked(marsh.schema.UnmarshalSchema):
    pass


def _gapi(rng):
    r = rng.random()
    x = {gens.key(rng): gens.scalar(rng) for _ in range(rng.randint(0, 3))} if r < .6 else marsh.MISSING if r < .8 else gens.element(rng, 1)
    kw = {rng.choice(['a', 'b', 'x y', 'k']): gvalue(rng, 2) for _ in range(rng.choice([0, 1, 2]))}
    return exotic(rng, x), kw


@P.oracle(gen=_gapi, n=2500)
def keywords(x, kw):
    """keyword arguments of marsh.unmarshal are marshaled and set over the entries of the element"""
    try:
        m = {k: ref(s) for k, s in kw.items()}
    except Bad:
        raise Skip
    if kw and is_map(x):
        want = {**{k: x[k] for k in x}, **m}
    elif kw and x == marsh.MISSING and isinstance(x, str):
        want = m
    elif kw:
        want = TypeError
    else:
        want = x
    d0 = frozen(x)
    try:
        got = marsh.unmarshal(Dict[Any, Any] if want is TypeError or is_map(want) else Any, x, **{k: make(s) for k, s in kw.items()})
    except TypeError:
        got = TypeError
    except marsh.errors.MissingValueError:
        return None if marsh.element.has_missing(want) else 'missing value'
    if not same(x, d0):
        return 'the element is modified'
    if want is TypeError or got is TypeError:
        return None if want is got else f'{got!r}'
    if marsh.element.has_missing(want):
        return f'a missing value is accepted: {got!r}'
    if not same(tup(got), tup(want)):
        return f'{got!r}, wanted {want!r}'


@P.oracle(gen=lambda rng: (gvalue(rng, 2), rng.choice(['int', 'str', 'float', 'List[Any]', 'Dict[str, Any]', 'Any', 'Optional[int]', 'List[str]', 'Tuple[Any, ...]'])), n=2500)
def casts(s, t):
    """cast is unmarshaling what marshaling gives"""
    ty = eval(t)

    def run(f):
        try:
            return 'ok', f()
        except marsh.errors.MarshalError:
            return 'nomarshal', None
        except marsh.errors.MarshError as e:
            return 'bad', e.path

    def two():
        return marsh.unmarshal(ty, ref(s))
    try:
        ref(s)
    except Bad:
        w = 'nomarshal', None
    else:
        w = run(two)
    g = run(lambda: marsh.cast(ty, make(s)))
    if g[0] != w[0] or not same(tup(g[1]), tup(w[1])):
        return f'{g!r}, wanted {w!r}'
