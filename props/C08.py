"""Primitive values are converted only where nothing is lost, and are rejected otherwise."""
import enum
import math
from typing import Literal, Optional
import marsh
from marsh import utils as mu
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C08', modules=['cast'], extra_modules=['kinds', 'schemas', 'path', 'element', 'structured', 'marshaling', 'types'],
         contracts=['str_to_bool', 'float_to_int', 'str_to_int', 'primitive_to_bool', 'cast_primitive_bool', 'cast_primitive_int', 'cast_primitive_float', 'cast_primitive_str', 'cast_literal',
                    'match_literal', 'cast_none', 'primitive_unmarshal_bool', 'primitive_unmarshal_int', 'primitive_unmarshal_float', 'primitive_unmarshal_str', 'none_unmarshal', 'has_default', 'get_default', 'enum_value_unmarshal', 'enum_unmarshal', 'literal_value_unmarshal', 'literal_unmarshal'],
         rule='values of every primitive type and their renderings as text, plus values that are no primitives',
         limits=['instances of subclasses of bool, int, float and str are treated as the base type'])
P.replay_ns = NS

TRUE, FALSE = ('1', 'true', 'y', 'yes', 'on'), ('0', 'false', 'n', 'no', 'off')
REJ = object()


def read_int(s):
    """integer written in s, None if s is no integer"""
    try:
        return int(s)
    except ValueError:
        try:
            f = float(s)
        except ValueError:
            return None
        return int(f) if math.isfinite(f) and f == math.floor(f) else None


def expect(t, v):
    """what converting v to t must give (REJ: rejected)"""
    if type(v) not in (bool, int, float, str):
        return REJ
    if t is str:
        return v if type(v) is str else str(v)
    if t is bool:
        if type(v) is bool:
            return v
        w = v.lower() if type(v) is str else str(int(v)) if v in (0, 1) else str(v).lower()
        return True if w in TRUE else False if w in FALSE else REJ
    if t is int:
        if type(v) is str:
            r = read_int(v)
            return REJ if r is None else r
        if type(v) is float and not (math.isfinite(v) and v == math.floor(v)):
            return REJ
        return int(v)
    try:
        return float(v)
    except (ValueError, OverflowError):
        return REJ


def alike(a, b):
    return type(a) is type(b) and (a == b and math.copysign(1, a) == math.copysign(1, b) if type(a) is float and a == a else a == b or a != a and b != b)


def aval(rng):
    r = rng.random()
    if r < .15:
        s = rng.choice(TRUE + FALSE + ('null', 'none', 'tru', '2', 't', 'yes ', ' on', '01', '1.0', '0.0', '-0', 'TRUE1', ''))
        return ''.join(rng.choice([c.upper(), c.lower()]) for c in s)
    if r < .3:
        x = rng.choice([0, 1, -1, 2, rng.randint(-10 ** 20, 10 ** 20), 10 ** 400, -2 ** 53 - 1, 2 ** 63])
        return x if rng.random() < .5 else rng.choice(['%d', ' %d', '+%d', '%d.0', '%d ', '0%d', '%de0', '%d.', '%d.5', '%d_0', '--%d']) % x
    if r < .5:
        x = rng.choice([0.0, -0.0, 1.0, 1.5, 2.0, -3.0, 1e16, 1e300, 5e-324, math.inf, -math.inf, math.nan, rng.uniform(-5, 5), float(rng.randint(-10 ** 15, 10 ** 15))])
        return x if rng.random() < .6 else repr(x)
    if r < .6:
        return rng.choice([True, False])
    if r < .75:
        return rng.choice([None, [], {}, [1], {'a': 1}, (), b'1', 1j, ['true'], object])
    return gens.scalar(rng)


def atype(rng):
    return rng.choice(['bool', 'int', 'float', 'str'])


TYPES = dict(bool=bool, int=int, float=float, str=str)


def call(f, *a):
    try:
        return f(*a)
    except ValueError as e:
        return REJ


def _gen(rng):
    return atype(rng), aval(rng)


VALS = [True, False, 0, 1, -1, 2, 0.0, 1.0, -0.0, 0.5, 2.0, math.nan, math.inf, 10 ** 400, 1e300, '', ' ', 'a', 'nan', 'inf', '-inf', '1e400', '1e3', '1.5', '1_000', '١', 'ON', 'oFF', 'Y', 'n', None, [], {}, b'', 1j]


def _enum():
    for t in TYPES:
        for v in VALS + [str(v) for v in VALS[:15]]:
            yield t, v


@P.oracle(gen=_gen, enum=_enum, n=8000)
def converted_or_rejected(t, v):
    """the conversion gives exactly the value that is written, or a ValueError; the schema does the same with an UnmarshalError"""
    T = TYPES[t]
    want = expect(T, v)
    got = call(mu.cast_primitive, T, v)
    if (got is REJ) != (want is REJ) or got is not REJ and not alike(got, want):
        return f'cast_primitive: {got!r}, wanted {want!r}'
    if mu.is_missing(v):
        return
    try:
        s = marsh.unmarshal(T, v)
    except marsh.errors.UnmarshalError as e:
        s = REJ
        if e.path:
            return f'path {e.path!r}'
    if (s is REJ) != (want is REJ) or s is not REJ and not alike(s, want):
        return f'unmarshal: {s!r}, wanted {want!r}'
    if T is not bool and want is not REJ and type(v) is not str and T is not str:
        if not (v != v) and T(v) != want:
            return 'value changed'


def _gprim(rng):
    while True:
        v = aval(rng)
        if type(v) in (bool, int, float, str):
            return atype(rng), v


@P.oracle(gen=_gprim, n=3000)
def text_round_trip(t, v):
    """the text of a value converts back to that value"""
    T = TYPES[t]
    if type(v) is not T:
        raise Skip
    if T is int and len(str(abs(v))) > 4000:
        raise Skip
    r = mu.cast_primitive(T, mu.cast_primitive(str, v))
    if not alike(r, v):
        return f'{v!r} -> {str(v)!r} -> {r!r}'
    if not alike(mu.cast_primitive(T, v), v):
        return 'own type changes'


# ------------------------------------------------------------- literals
LITS = [True, False, 0, 1, 2, -3, 'a', '1', 'True', 'yes', '', 'null', '2.5', '0']


def lit_expect(lits, v):
    for lit in lits:
        x = expect(type(lit), v)
        if x is not REJ and x == lit:
            return lit
    return REJ


def _glit(rng):
    lits = tuple(rng.sample(LITS, rng.randint(1, 4)))
    r = rng.random()
    v = rng.choice(lits) if r < .3 else str(rng.choice(lits)) if r < .6 else aval(rng)
    return lits, v


@P.oracle(gen=_glit, n=5000)
def literals(lits, v):
    """the result is the first literal that the converted value equals, with the literal's type; otherwise rejected"""
    want = lit_expect(lits, v)
    got = call(mu.match_literal, lits, v)
    if (got is REJ) != (want is REJ) or got is not REJ and not alike(got, want):
        return f'match_literal: {got!r}, wanted {want!r}'
    w1 = lit_expect(lits[:1], v)
    got = call(mu.cast_literal, lits[0], v)
    if (got is REJ) != (w1 is REJ) or got is not REJ and not alike(got, w1):
        return f'cast_literal: {got!r}, wanted {w1!r}'
    if mu.is_missing(v):
        return
    try:
        s = marsh.unmarshal(Literal[lits], v)
    except marsh.errors.UnmarshalError as e:
        s = REJ
        if e.path:
            return f'path {e.path!r}'
    if (s is REJ) != (want is REJ) or s is not REJ and not alike(s, want):
        return f'unmarshal: {s!r}, wanted {want!r}'


def _gnone(rng):
    return (rng.choice([None, 'null', 'none', 'NULL', 'None', 'nOnE', 'nul', 'none ', '', 0, False, [], {}, 'null.', aval(rng), gens.element(rng, 2)]),)


@P.oracle(gen=_gnone, n=1000)
def none_values(v):
    """None is written as None, the missing value or the word null/none in any case; nothing else"""
    want = v is None or v is type(None) or mu.is_missing(v) or isinstance(v, str) and v.lower() in ('null', 'none')
    try:
        r = mu.cast_none(v)
        if r is not None or not want:
            return f'cast_none: {r!r}'
    except ValueError:
        if want:
            return 'cast_none: rejected'
    # the schema takes None itself (and a missing value)
    try:
        r = marsh.unmarshal(None, v)
        if r is not None or not (v is None or mu.is_missing(v)):
            return f'unmarshal: {r!r}'
    except marsh.errors.UnmarshalError as e:
        if v is None or mu.is_missing(v):
            return 'unmarshal: rejected'
        if e.path:
            return f'path {e.path!r}'


class Color(enum.Enum):
    RED = 1
    GREEN = 'g'
    BLUE = 'RED2'
    ON = True
    OFF = 2.5
    TWO = '1'


class Cross(enum.Enum):
    A = 'B'
    B = 'C'
    C = 'A'
    N1 = 'N2'
    N2 = 1
    N3 = 'N3'


class Bits(enum.Flag):
    R = 1
    W = 2
    RW = 3
    X = 4


ENUMS = {'Color': Color, 'Cross': Cross, 'Bits': Bits}


def _genum(rng):
    k = rng.choice(list(ENUMS))
    m = rng.choice(list(ENUMS[k]))
    return k, rng.choice([m.name, m.name, m.value, str(m.value), m.name.lower(), 'GREE', aval(rng), None, '2.50', 'yes', 2.5])


@P.oracle(gen=_genum, n=1500)
def enums(k, v):
    """an enum is the member whose name the given value is, or else the first whose value it is; otherwise rejected"""
    Color = ENUMS[k]
    want = REJ
    if not mu.is_missing(v):
        for what in ('name', 'value'):
            for m in Color:
                if want is REJ and lit_expect((getattr(m, what),), v) is not REJ:
                    want = m
    try:
        got = marsh.unmarshal(Color, v)
    except marsh.errors.UnmarshalError as e:
        got = REJ
        if e.path:
            return f'path {e.path!r}'
    if got is not want:
        return f'{got!r}, wanted {want!r}'


class IntE(enum.IntEnum):
    ONE = 1
    TWO = 2
    BIG = 2 ** 60


class StrE(str, enum.Enum):
    A = 'a'
    ONE = '1'


class SubInt(int):
    pass


class SubStr(str):
    pass


class SubFloat(float):
    pass


SUBS = {'IntE': IntE, 'StrE': StrE, 'SubInt': SubInt, 'SubStr': SubStr, 'SubFloat': SubFloat}


@P.oracle(gen=lambda rng: (rng.choice(list(SUBS)), rng.choice([1, 2, 3, '1', '2', '3', ' 2 ', 1.0, 2.0, 1.5, True, False, 'a', 'b', 'A', None, '1.0', 2 ** 60, str(2 ** 60), 'x', '', 0.1, '-0.5', 'inf', []])), n=1500)
def subclasses(name, x):
    """a subclass of a primitive type gives its instance made from what the primitive type gives, and rejects what either rejects"""
    cls = SUBS[name]
    base = next(b for b in (int, str, float) if issubclass(cls, b))
    if cls is StrE and not isinstance(x, str):
        raise Skip
    want = expect(base, x)
    if want is not REJ:
        try:
            want = cls(want)
        except ValueError:
            want = REJ
    try:
        got = marsh.unmarshal(cls, x)
    except marsh.errors.UnmarshalError:
        got = REJ
    if got is not want and (got is REJ or want is REJ or type(got) is not type(want) or got != want):
        return f'{got!r}, wanted {want!r}'
