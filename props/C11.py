"""Every parameter of a structured type is bound to its own entry or item."""
import collections
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from . import typed
from .typed import gtype, gfor, outcome, wanted, eq, build, Rec, Bad, at, ref, is_missing

P = Prop('C11', modules=['structured', 'construct', 'setups'], extra_modules=['schemas', 'kinds', 'path', 'element', 'cast'],
         contracts=['structured_unmarshal', 'validate_defaults', 'sequence_unmarshal', 'mapping_unmarshal', 'has_default', 'get_default', 'prepend', 'callable_init', 'tuple_init', 'tuple_construct', 'namedtuple_init', 'typeddict_init', 'typeddict_construct', 'get_init_fields', 'dataclass_init'],
         rule='random signatures and field lists (positional-only, keyword-only, variadic, init variables, not required keys, defaults) with elements given by name or by position',
         limits=['constructors are run as they are; what they raise is passed on'])
P.replay_ns = dict(NS, B=lambda x: x)
KINDS = ['dc', 'nt', 'td', 'fn', 'fn', 'tup']


def _spec(rng, k=None):
    k = k or rng.choice(KINDS)
    return (k, tuple(gtype(rng, 1) for _ in range(rng.randint(0, 4)))) if k == 'tup' else (k, typed.gparams(rng, k, rng.choice([1, 1, 2])))


def _gen(rng):
    spec = _spec(rng)
    x = gfor(rng, spec)
    return spec, exotic(rng, x) if rng.random() < .3 else x


@P.oracle(gen=_gen, n=8000)
def binding(spec, x):
    """the constructor gets exactly the unmarshaled entries (by name) or items (by position), defaults for what is missing; nothing is dropped or bound twice, and unknown keys and surplus items are rejected"""
    try:
        w = wanted(spec, x)
    except TypeError:
        raise Skip
    g = outcome(spec, x)
    if g[0] != w[0] or g[1] != w[1] and (g[0] == 'bad' or not eq(g[1], w[1])):
        return f'{g[:3]!r}, wanted {w!r}'


def _gargs(rng):
    spec = _spec(rng, 'fn')
    return spec, gfor(rng, spec)


@P.oracle(gen=_gargs, n=3000)
def unmarshal_args(spec, x):
    """calling a function with the arguments from unmarshal_args gives the same as unmarshaling it"""
    f = build(spec)
    try:
        w = wanted(spec, x)
    except TypeError:
        raise Skip
    try:
        a = marsh.unmarshal_args(f, x)
    except marsh.errors.MarshError as e:
        if w[0] != 'bad' or err_path(e) != w[1]:
            return f'{e!r}, wanted {w!r}'
        return
    if w[0] == 'bad':
        return f'{a!r}, wanted {w!r}'
    r = typed.view(spec, f(*a.args, **a.kwargs))
    if not eq(r, w[1]):
        return f'{r!r}, wanted {w[1]!r}'


# -------------------------------------------- arguments given by the caller
def _gdef(rng):
    spec = _spec(rng, 'fn')
    x = gfor(rng, spec)
    if not is_map(x) and rng.random() < .6:
        x = {}
    ps = spec[1]
    pos = [n for n, t, d, k in ps if k in ('po', 'pk')]
    va, vk = any(k == 'va' for *_, k in ps), any(k == 'vk' for *_, k in ps)
    na = rng.randint(0, len(pos)) if rng.random() < .6 else 0
    dargs = ['d%d' % i for i in range(na)]
    if va and na == len(pos):
        dargs += ['v%d' % i for i in range(rng.randint(0, 2))]
    names = [n for n, t, d, k in ps if k in ('pk', 'ko') and (n not in pos or pos.index(n) >= na)]
    dkw = {n: 'k' + n for n in rng.sample(names, rng.randint(0, len(names)))} if rng.random() < .6 else {}
    if vk and rng.random() < .5:
        dkw.update({n: 'e' + n for n in rng.sample(['k', 'l', 'm'], rng.randint(1, 2))})
    return spec, x, tuple(dargs), dkw


def _expect(ps, x, dargs, dkw):
    if is_missing(x):
        x = {}
    if is_map(x):
        named, items = dict(x), []
    elif is_seq(x):
        named, items = {}, list(x)
    else:
        raise Bad()
    pos = [n for n, t, d, k in ps if k in ('po', 'pk')]
    given = dict(zip(pos, dargs))           # what a call with the default arguments binds
    given.update({n: v for n, v in dkw.items() if any(n == m for m, *_ in ps)})
    extra = list(dargs[len(pos):])
    more = {n: v for n, v in dkw.items() if n not in given}
    got = {}
    for n, t, d, k in sorted(ps, key=lambda p: ['po', 'pk', 'va', 'ko', 'vk'].index(p[3])):
        if k == 'va':
            got[n] = tuple(at(n, at, i, ref, t, y) for i, y in enumerate(items)) + tuple(extra)
            items = []
        elif k == 'vk':
            got[n] = {m: v for m, v in more.items() if m not in named}
            for key in list(named):
                got[n][key] = at(n, at, key, ref, t, named.pop(key))
        elif items and k != 'ko':
            got[n] = at(n, ref, t, items.pop(0), d)
        elif n in given and n not in named:
            got[n] = given[n]
        else:
            got[n] = at(n, ref, t, named.pop(n, '???'), d)
    if named or items:
        raise Bad()
    return {n: got[n] for n, t, d, k in ps}


@P.oracle(gen=_gdef, n=4000)
def default_arguments(spec, x, dargs, dkw):
    """arguments that the caller passes along are used exactly for the parameters that the element does not give"""
    if isinstance(x, (list, tuple)) and len(dargs) > sum(k in ('po', 'pk') for *_, k in spec[1]):
        pass
    f = build(spec)
    try:
        w = ('ok', _expect(spec[1], x, dargs, dkw))
    except Bad as e:
        w = ('bad', e.path)
    except TypeError:
        raise Skip
    s = marsh.schema.argument.ArgumentsUnmarshalSchema(f)
    try:
        a = s.unmarshal(x, default_args=dargs, default_kwargs=dkw)
    except marsh.errors.MarshError as e:
        if w[0] != 'bad' or err_path(e) != w[1]:
            return f'{e!r}, wanted {w!r}'
        return
    if w[0] == 'bad':
        return f'{a!r}, wanted {w!r}'
    r = typed.view(spec, f(*a.args, **a.kwargs))
    if not eq(r, typed.view(spec, Rec(w[1]))):
        return f'{r!r}, wanted {w[1]!r}'


def _gconf(rng):
    spec = _spec(rng, 'fn')
    pos = [n for n, t, d, k in spec[1] if k in ('po', 'pk')]
    return spec, rng.randint(0, len(pos))


@P.oracle(gen=_gconf, n=500)
def conflicting_arguments(spec, i):
    """the same argument can not be passed along by position and by name"""
    pos = [n for n, t, d, k in spec[1] if k in ('po', 'pk')]
    s = marsh.schema.argument.ArgumentsUnmarshalSchema(build(spec))
    if i >= len(pos):
        raise Skip
    try:
        r = s.unmarshal({}, default_args=['x'] * (i + 1), default_kwargs={pos[i]: 'y'})
        return f'{r!r}'
    except TypeError:
        pass
