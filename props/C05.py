"""Merging: union of mappings value by value, later values win, missing never wins."""
import marsh
import collections
from marsh import element as me
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C05', modules=[], contracts=['merge', '_merge'], extra_modules=['element', 'kinds'], lemmas=['C05_pointwise', 'C05_last_wins'],
         rule='random sequences of nested elements with shared keys and missing markers', limits=['the order of keys in a merged mapping is unspecified'])
P.replay_ns = NS


def ref_merge(a, b, cat):
    if is_map(a) and is_map(b):
        return {k: ref_merge(a[k] if k in a else '???', b[k] if k in b else '???', cat) for k in list(a) + [k for k in b if k not in a]}
    if cat and is_seq(a) and is_seq(b):
        return tuple(list(a) + list(b))
    return a if isinstance(b, str) and b == '???' else b


def _near(rng, v):
    """an element with much the same keys"""
    if is_map(v) and rng.random() < .85:
        out = {}
        for k, x in v.items():
            if rng.random() < .7:
                out[k] = _near(rng, x)
        if rng.random() < .4:
            out[gens.key(rng)] = gens.scalar(rng)
        return out
    if is_seq(v) and rng.random() < .7:
        return type(v)([gens.scalar(rng) for _ in range(rng.randint(0, 2))])
    return '???' if rng.random() < .25 else element(rng, 1) if rng.random() < .5 else gens.scalar(rng)


def _gen(rng):
    v = element(rng, 3, True)
    if rng.random() < .6 and not is_map(v):
        v = {gens.key(rng): v, 'k': {'l': 1, 'm': [1, 2]}}
    n = rng.choice([0, 1, 1, 2, 3])
    return exotic(rng, v), [exotic(rng, _near(rng, v)) for _ in range(n)], rng.random() < .5


@P.oracle(gen=_gen, n=5000)
def merge_is_a_fold(v, others, cat):
    """merge(e, *es) equals the left fold of the two-element merge; inputs unchanged"""
    b4 = frozen([v, *others])
    r = me.merge(v, *others, concatenate=cat)
    if not same(b4, [v, *others]):
        return f'an argument was modified: {[v, *others]!r}'
    want = v
    for o in others:
        want = ref_merge(want, o, cat)
    if not equiv(r, want):
        return f'{r!r}, wanted {want!r}'
    if not others and r is not v:
        return 'merge of one element is not that element'
    if len(others) > 1:
        r2 = me.merge(me.merge(v, *others[:-1], concatenate=cat), others[-1], concatenate=cat)
        if not equiv(r, r2):
            return f'stepwise merge differs: {r2!r}'
