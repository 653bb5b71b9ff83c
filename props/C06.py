"""Standardizing keeps the data and leaves only the requested container types; has_missing finds a missing value anywhere."""
import marsh
import collections
from marsh import element as me
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C06', modules=[], contracts=['standardize', 'has_missing'], extra_modules=['element', 'kinds'],
         lemmas=['C06_keys', 'C06_values', 'C06_items', 'C06_length', 'C06_missing_item'],
         rule='random nested elements of several container types', limits=['the contract of standardize covers the default container types; other types are covered by the bounded oracle'])
P.replay_ns = NS


def _types(v, mt, st):
    if is_map(v):
        return type(v) is mt and all(_types(x, mt, st) for x in v.values())
    if is_seq(v):
        return type(v) is st and all(_types(x, mt, st) for x in v)
    return True


def _gen(rng):
    return (exotic(rng, element(rng, 4)),)


@P.oracle(gen=_gen, n=2500)
def standardize_keeps_the_data(v):
    """every container is of the requested type, the data and the key order are the same, and doing it twice changes nothing"""
    b4 = frozen(v)
    for mt, st in ((dict, tuple), (dict, list), (collections.OrderedDict, tuple), (collections.OrderedDict, list)):
        r = me.standardize(v, mapping_type=mt, sequence_type=st) if (mt, st) != (dict, tuple) else me.standardize(v)
        if not same(v, b4):
            return 'the element was modified'
        if not equiv(r, v) or list(all_paths(r)) != list(all_paths(v)):
            return f'{r!r}, wanted the data of {v!r}'
        if not _types(r, mt, st):
            return f'container types: {r!r}'
        if not same(me.standardize(r, mapping_type=mt, sequence_type=st), r):
            return 'not idempotent'


def _has(v):
    if isinstance(v, str) and v == '???':
        return True
    if is_map(v):
        return any(_has(k) or _has(x) for k, x in v.items())
    if is_seq(v):
        return any(_has(x) for x in v)
    return False


def _miss(rng):
    v = element(rng, 4)
    ps = [p for p in all_paths(v) if '' not in p]
    if rng.random() < .6 and ps:
        v = me.override(v, '???', mkpath(rng.choice(ps)))
    return (exotic(rng, keys(rng, v)) if rng.random() < .3 else exotic(rng, v),)


def keys(rng, v):
    """some keys are no strings"""
    if isinstance(v, dict):
        return {rng.choice([k, k, ('a', k), (k, '???'), 1, None, ('a', (1, '???')), '???', ()]) if rng.random() < .4 else k: keys(rng, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(keys(rng, x) for x in v)
    return v


@P.oracle(gen=_miss, n=2500)
def has_missing_finds_it(v):
    """True exactly when some value (or key) in the element is missing"""
    if me.has_missing(v) is not _has(v):
        return f'has_missing gives {me.has_missing(v)!r}'
    if me.has_missing(v) != (len(me.missing_paths(v)) > 0 if hasattr(me, 'missing_paths') else me.has_missing(v)):
        return 'missing_paths disagrees'
