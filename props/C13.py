"""Missing values: defaults are used exactly when a value is missing, required ones are reported."""
import datetime
import logging
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from . import typed
from .typed import gtype, gfor, outcome, wanted, eq, build
from .C09 import OTHER

P = Prop('C13', modules=['schemas', 'structured', 'construct', 'setups'], extra_modules=['kinds', 'path', 'element', 'cast'],
         contracts=['us_init', 'annotated_init_plain', 'annotated_init_default', 'annotated_init_default_factory', 'typevar_init_plain', 'typevar_init_default', 'typevar_init_default_factory', 'has_default', 'get_default', 'sequence_unmarshal', 'mapping_unmarshal', 'union_unmarshal', 'primitive_unmarshal_bool', 'primitive_unmarshal_int', 'primitive_unmarshal_float',
                    'primitive_unmarshal_str', 'any_unmarshal', 'structured_unmarshal'],
         rule='every kind of type with random defaults and default factories, elements with missing entries and missing markers at random places',
         limits=['the type None ignores defaults: it has only one value', 'a default that is itself the missing value counts as no default', 'custom annotations also apply to a default'])
P.replay_ns = NS
TYPES = dict(OTHER, int=int, float=float, bool=bool, str=str, any=Any, enum=typed.Color, lit=Literal[1, 'a'], lit1=Literal['x'], union=Union[int, str], opt=Optional[int], list=List[int], dict=Dict[str, int],
             tup=Tuple[int, str], dc=build(('dc', (('a', ('int',), None, 'pk'),))), fn=build(('fn', (('a', ('int',), None, 'pk'),))), nt=build(('nt', (('a', ('int',), None, 'pk'),))), td=build(('td', (('a', ('int',), None, 'pk'),))),
             mapping=Mapping[str, int], set=Set[int], ddict=DefaultDict[str, int])
for _n in ('boom', 'preboom', 'populated', 'positive', 'fset'):
    TYPES.pop(_n)
ANN = dict(TYPES)


class Unique:
    """a default that is equal to nothing else"""


def _g1(rng):
    return rng.choice(list(TYPES)), rng.choice(['value', 'factory', 'both']), rng.choice(['u', 0, False, None, '', (), 'x'])


def _e1():
    for n in TYPES:
        for k in ('value', 'factory', 'both'):
            for d in ('u', None, False):
                yield n, k, d


@P.oracle(gen=_g1, enum=_e1, n=500)
def every_type_uses_its_default(n, kind, d):
    """unmarshaling a missing element gives the default itself, or what the factory makes (which is called once, each time)"""
    d = Unique() if d == 'u' else d
    calls = []

    def factory():
        calls.append(1)
        return ('made', len(calls))
    kw = {}
    if kind != 'factory':
        kw['default'] = d
    if kind != 'value':
        kw['default_factory'] = factory
    s = marsh.schema.UnmarshalSchema(TYPES[n], **kw)
    if not s.has_default():
        return 'has no default'
    for i in (1, 2):
        r = s.unmarshal(marsh.MISSING)
        if kind == 'value':
            if r is not d:
                return f'{r!r}'
        elif r != ('made', i) or len(calls) != i:
            return f'{r!r} after {len(calls)} calls'
    s = marsh.schema.UnmarshalSchema(TYPES[n])
    if s.has_default():
        return 'has a default'


def _gen(rng):
    spec = (rng.choice(['dc', 'fn', 'nt', 'td']),)
    spec += (typed.gparams(rng, spec[0], 2),)
    x = gfor(rng, spec)
    if is_map(x):
        x = {k: ('???' if rng.random() < .2 else v) for k, v in x.items() if rng.random() < .7}
    elif is_seq(x):
        x = ['???' if rng.random() < .3 else v for v in x]
    return spec, x


@P.oracle(gen=_gen, n=6000)
def missing_entries(spec, x):
    """an entry that is absent or missing gets its default; without one the empty value, None, or a MissingValueError with its path"""
    try:
        w = wanted(spec, x)
    except TypeError:
        raise Skip
    g = outcome(spec, x)
    if g[0] != w[0] or g[1] != w[1] and (g[0] == 'bad' or not eq(g[1], w[1])) or g[0] == 'bad' and g[2] != w[2]:
        return f'{g[:3]!r}, wanted {w!r}'


EQUAL = [1, True, 1.0, 0, False, 0.0, -1, -2, -1.0, '1', (1,), (True,), (1.0,), ()]


def _geq(rng):
    return [(rng.choice(['fn', 'dc', 'nt']), rng.choice(['any', 'int', 'opt']), rng.choice(EQUAL)) for _ in range(rng.randint(2, 4))]


@P.oracle(gen=_geq, n=2500)
def equal_defaults_are_told_apart(uses):
    """a default is the very object that was given, also when another parameter has an equal default"""
    for k, t, d in uses:
        spec = (k, (('p', {'any': ('any',), 'int': ('int',), 'opt': ('union', (('int',), ('none',)))}[t], ('v', d), 'pk'),))
        r = marsh.unmarshal(build(spec), {})
        v = r.d['p'] if k == 'fn' else r.p
        if type(v) is not type(d) or repr(v) != repr(d):
            return f'{k} {t}: {v!r} for the default {d!r}'


def _gf(rng):
    return rng.randint(1, 4), rng.choice([[], {}, [1]])


@P.oracle(gen=_gf, n=200)
def factories_are_called_each_time(n, v):
    """default factories give a fresh value to every object"""
    X = build(('dc', (('p', ('list', ('int',)) if isinstance(v, list) else ('dict', ('str',), ('int',)), ('f', v), 'pk'),)))
    xs = [marsh.unmarshal(X, {}).p for _ in range(n + 1)]
    if any(x is y for i, x in enumerate(xs) for y in xs[:i]):
        return 'shared'
    if any(x != v for x in xs):
        return f'{xs!r}'
