"""Unmarshaling either succeeds or raises a marsh error that names the place in the input."""
import array
import collections
import dataclasses
import datetime
import logging
import numbers
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from . import typed
from .typed import gtype, gfor, outcome, wanted, eq, build, Bad

P = Prop('C09', modules=['schemas', 'structured', 'types'], extra_modules=['kinds', 'path', 'element', 'cast', 'marshaling'],
         contracts=['sequence_unmarshal', 'mapping_unmarshal', 'union_unmarshal', 'optional_schema', 'primitive_unmarshal_bool', 'primitive_unmarshal_int', 'primitive_unmarshal_float', 'primitive_unmarshal_str',
                    'none_unmarshal', 'any_unmarshal', 'prepend', 'structured_unmarshal', 'enum_value_unmarshal', 'literal_value_unmarshal', 'literal_unmarshal', 'bytes_unmarshal', 'typevar_unmarshal',
                    'wrapper_unmarshal', 'annotated_unmarshal', 'namespace_unmarshal', 'find_namespace'],
         rule='random types up to three levels deep, with elements that fit them with random defects, compared with an independent reference of unmarshaling',
         limits=['exceptions raised by user code (constructors of structured types, default factories, non-marsh exceptions of user-written schemas) are passed on as they are',
                 'the parsing of date texts by dateparser is outside the property'])
P.replay_ns = NS


def _gen(rng):
    spec = gtype(rng, rng.choice([1, 2, 2, 3]))
    x = gfor(rng, spec)
    if rng.random() < .5:
        x = damage(rng, x)
    return spec, exotic(rng, x) if rng.random() < .3 else x


def damage(rng, x):
    """replace one place by something else"""
    if is_map(x) and x and rng.random() < .8:
        k = rng.choice(list(x))
        d = dict(x)
        d[k] = damage(rng, x[k])
        return d
    if is_seq(x) and len(x) and rng.random() < .8:
        i = rng.randrange(len(x))
        y = list(x)
        y[i] = damage(rng, x[i])
        return y
    return rng.choice(['zz', '???', None, [], {}, 1.5, b'x', object, [1, [2]], {'a': {'b': 1}}, 10 ** 400, float('nan'), 1j])


@P.oracle(gen=_gen, n=9000)
def contained_and_located(spec, x):
    """success and failure are as specified; a failure is a MarshError whose path has exactly the fields that lead to the culprit"""
    try:
        w = wanted(spec, x)
    except TypeError:
        raise Skip
    g = outcome(spec, x)
    if g[0] != w[0] or g[1] != w[1] and (g[0] == 'bad' or not eq(g[1], w[1])):
        return f'{g[:3]!r}, wanted {w!r}'
    if g[0] == 'bad':
        if g[2] != w[2]:
            return f'missing value error: {g[2]}, wanted {w[2]}'
        str(g[3]), repr(g[3]), g[3].pretty()


# ----------------------------------------------- other types of the library
class Broken(list):
    """a sequence type that can not be constructed"""

    def __init__(self, value):
        raise KeyError('no')


class BrokenMap(dict):
    def __init__(self, value):
        raise ZeroDivisionError('no')


class Refuses(list):
    def __init__(self, value):
        raise marsh.errors.MarshError('mine', path='a.b')


class Boom(marsh.annotation.Annotation):
    def __call__(self, value):
        raise ZeroDivisionError


class PreBoom(marsh.annotation.PreAnnotation):
    def __call__(self, value):
        return value['x']


TV = TypeVar('TV', bound=List[int])
TC = TypeVar('TC', int, List[str])
OTHER = dict(complex=complex, slice=slice, bytes=bytes, sint=SupportsInt, logger=logging.Logger, tv=TV, tc=TC, boom=Annotated[int, Boom()], preboom=Annotated[Dict[str, int], PreBoom()],
             populated=Annotated[List[int], marsh.annotation.Populated], positive=Annotated[float, marsh.annotation.Positive()], broken=Broken, brokenmap=BrokenMap, refuses=Refuses,
             deque=Deque[int], fset=FrozenSet[int], counter=collections.Counter, od=OrderedDict[str, int], ulist=collections.UserList, dt=datetime.datetime, time=datetime.time, numbers=numbers.Complex,
             barelist=list, bareset=set, baredict=dict, baretuple=tuple)


def _gother(rng):
    r = rng.random()
    x = rng.choice(['1:2', ' : ', '- 1:', '::', '5', 'YWJj', '!', '', 'é', '1+2j', 1, 2.5, 10 ** 400, 1e300, float('nan'), None, True, b'a', [], [1], [1, 2, 3, 4], ['x', 2], {}, {'real': 1, 'imag': 2}, {'start': 'a'},
                    {'name': 'pyvc.test', 'level': 'INFO'}, {'name': 'pyvc.test', 'level': 'nolevel'}, {'level': {}}, {'year': 5}, [2020, 13, 1], {'x': {'a': 1}}, -1, '-0.0', [[1]], {'a': 'b'}, object(), '???', {1: 2}, [{}], [set()]]) if r < .8 else element(rng, 3, missing=True)
    if r > .97:
        x = float(rng.choice([1, -1])) * 10 ** rng.randint(8, 300)
    return rng.choice(list(OTHER)), x


def _strdate(n, x):
    return n in ('dt', 'time') and isinstance(x, str) and x != '???'


@P.oracle(gen=_gother, n=6000)
def other_types_are_contained(n, x):
    """complex, slice, bytes, dates, loggers, protocols, type variables, annotated and failing container types raise nothing but MarshErrors"""
    if _strdate(n, x):
        raise Skip
    try:
        marsh.unmarshal(OTHER[n], x)
    except marsh.errors.MarshError as e:
        fs = err_path(e)
        v = x
        if n == 'refuses' and fs == ('a', 'b'):
            return None
        if n not in ('logger', 'slice', 'preboom', 'complex'):
            for f in fs:
                v = follow(v, f)
                if v is NOPE and is_map(x):
                    v = {str(k): w for k, w in x.items()}.get(f, NOPE)
            if v is NOPE:
                return f'the path {e.path!r} leads nowhere'
        if n in ('broken', 'brokenmap') and isinstance(x, (list, dict)):
            if (n == 'broken') == is_seq(x) and (fs or not isinstance(e, marsh.errors.UnmarshalError)) and not _missing_inside(x):
                return f'{e!r}'


def _missing_inside(x):
    return typed.has_missing(x)


# ----------------------------------------------------------- bad places
def _gplace(rng):
    depth = rng.randint(0, 5)
    fs, spec, x = [], ('int',), 'bad'
    for _ in range(depth):
        r = rng.random()
        if r < .3:
            i = rng.randint(0, 3)
            x = [0] * 0 + [typed.gfor(rng, ('str',)) for _ in range(0)] + _fill(spec, i) + [x] + _fill(spec, rng.randint(0, 2))
            spec, f = ('list', spec), str(i)
        elif r < .6:
            f = gens.key(rng) or 'k'
            x = {**{k: _good(spec) for k in rng.sample(['p', 'q', 'r.s'], rng.randint(0, 2)) if k != f}, f: x}
            spec = ('dict', ('str',), spec)
        elif r < .8:
            f = rng.choice(['a', 'b', 'é'])
            spec, x = ('dc', (('zero', ('int',), ('v', 1), 'pk'), (f, spec, None, 'ko'))), {f: x}
        else:
            spec, f = ('union', (spec, ('none',))), None
        if f:
            fs.insert(0, f)
    return spec, x, tuple(fs)


def _good(spec):
    k = spec[0]
    return {'int': 1, 'list': [], 'dict': {}}.get(k) if k != 'dc' and k != 'union' else {spec[1][1][0]: _good(spec[1][1][1])} if k == 'dc' else _good(spec[1][0])


def _fill(spec, n):
    return [_good(spec) for _ in range(n)]


@P.oracle(gen=_gplace, n=3000)
def one_bad_place_is_named(spec, x, fs):
    """the error about a single bad value has the exact path of that value; selecting it finds the value"""
    try:
        return f'unmarshaled to {marsh.unmarshal(build(spec), x)!r}'
    except marsh.errors.UnmarshalError as e:
        if err_path(e) != fs:
            return f'path {e.path!r}, wanted {fs!r}'
        if marsh.element.select(x, e.path) != 'bad':
            return 'selecting the path gives something else'


class Refusal(marsh.errors.MarshError):
    pass


REFUSE = {n: type('R' + n, (), {'__init__': (lambda err: lambda self, a: (_ for _ in ()).throw(err('mine')))(e)}) for n, e in
          dict(marsh=marsh.errors.MarshError, unmarshal=marsh.errors.UnmarshalError, path=marsh.errors.PathError, marshal=marsh.errors.MarshalError, own=Refusal, missing=marsh.errors.MissingValueError).items()}


def _grefuse(rng):
    return rng.choice(list(REFUSE)), tuple(rng.choice(['list', 'dict', 'tup', 'opt', 'any2', 'ann', 'dc', 'set']) for _ in range(rng.randint(0, 4))), rng.randint(0, 2)


@P.oracle(gen=_grefuse, n=1500)
def refusals_are_named(n, nest, i):
    """a type that rejects an element with a marsh error of any kind is named by the path of the error"""
    t, x, fs = REFUSE[n], [0], []
    for k in nest:
        if k in ('list', 'set'):
            t, x, f = (List if k == 'list' else Deque)[t], [x], '0'
        elif k == 'dict':
            t, x, f = Dict[str, t], {f'k.{i}': x}, f'k.{i}'
        elif k == 'tup':
            t, x, f = Tuple[(int,) * i + (t,)], [7] * i + [x], str(i)
        elif k == 'dc':
            t, x, f = dataclasses.make_dataclass('X', [('zero', int, 0), ('y', t, None)]), {'y': x}, 'y'
        elif k == 'opt':
            t, f = Optional[t], None
        elif k == 'ann':
            t, f = Annotated[t, 'x'], None
        else:
            f = None
        if f is not None:
            fs.insert(0, f)
    try:
        return f'gave {marsh.unmarshal(t, x)!r}'
    except marsh.errors.MarshError as e:
        if err_path(e) != tuple(fs):
            return f'path {e.path!r}, wanted {fs!r}'
