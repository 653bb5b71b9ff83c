"""Overriding by path: the value is there afterwards and nothing else changed."""
import marsh
from marsh import element as me
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C03', modules=[], contracts=['override', 'is_missing'], extra_modules=['element', 'kinds'], lemmas=['C03_set_get', 'C03_frame'],
         rule='random nested elements, paths into them (mutated), values and the combine flag')
P.replay_ns = NS
MISS = '???'


def ref_override(v, new, fs, combine):
    """(ok, result | fields of the error path)"""
    if not fs:
        if combine and is_map(v) and is_map(new):
            r = {k: x for k, x in v.items()}
            for k, x in new.items():
                r[k] = x
            return True, r
        if combine and is_seq(v) and is_seq(new):
            return True, tuple(list(v) + list(new))
        return True, new
    f, rest = fs[0], fs[1:]
    if isinstance(v, str) and v == MISS:
        v = {}
    if is_map(v):
        ok, x = ref_override(v[f] if f in v else {}, new, rest, combine)
        if not ok:
            return False, (f,) + x
        r = {k: y for k, y in v.items()}
        r[f] = x
        return True, r
    if is_seq(v):
        i = index(f, len(v))
        if i is None or i > len(v):
            return False, ()
        ok, x = ref_override(v[i] if i < len(v) else {}, new, rest, combine)
        if not ok:
            return False, (f,) + x
        xs = list(v)
        xs[i:i + 1] = [x]
        return True, tuple(xs)
    return False, ()


def _gen(rng):
    v = element(rng, missing=True)
    fs = a_path(rng, v)
    if rng.random() < .15 and is_seq(v):
        fs = [str(len(v))] + fs[1:]
    for i in range(len(fs)):
        if rng.random() < .12:
            tr = trail(v, fs[:i])
            if is_seq(tr[-1]):
                fs[i] = str(len(tr[-1]))
    return exotic(rng, v), element(rng, 2) if rng.random() < .7 else gens.scalar(rng), path_text(rng, fs), rng.random() < .5


@P.oracle(gen=_gen, n=6000)
def override_sets_one_place(v, new, p, combine):
    """the result of override equals the reference, the input is not changed, errors carry the path"""
    b4, n4 = frozen(v), frozen(new)
    fs = fields_of(p)
    try:
        got = (True, me.override(v, new, p, combine=combine))
    except marsh.errors.PathError as e:
        got = (False, e)
    if not same(v, b4) or not same(new, n4):
        return f'an argument was modified: {v!r} {new!r}'
    if fs is None:
        return None if not got[0] and got[1].path == '' else f'malformed path: {got!r}'
    ok, want = ref_override(v, new, fs, combine)
    if ok != got[0]:
        return f'{got!r}, wanted {want!r}'
    if not ok:
        return None if err_path(got[1]) == want else f'error path {got[1].path!r}, wanted {want!r}'
    r = got[1]
    if not equiv(r, want):
        return f'{r!r}, wanted {want!r}'
    if list(all_paths(r)) != list(all_paths(want)):
        return f'key order: {r!r}, wanted {want!r}'
    if not combine and not equiv(me.select(r, p), new):
        return 'the value is not at the path'
    # containers along the path are new ones; those off the path are the same objects
    if fs and (r is v):
        return 'the input object was returned'


def _two(rng):
    v = {'a': element(rng, 2), 'b': [element(rng, 1) for _ in range(3)], 'c': {'d': 1, 'e': {'f': 2}}}
    ps = list(all_paths(v))
    return v, [(rng.choice(ps), gens.scalar(rng)) for _ in range(rng.randint(1, 5))]


@P.oracle(gen=_two, n=1500)
def repeated_overrides_keep_the_rest(v, steps):
    """after any sequence of overrides every place not on or below an overridden path is as before"""
    cur = v
    for fs, x in steps:
        if any(f == '' for f in fs):
            raise Skip
        prev = cur
        try:
            cur = me.override(prev, x, mkpath(fs))
        except marsh.errors.PathError:
            continue
        if not same(me.select(cur, mkpath(fs)), x):
            return f'{fs!r} not set'
        for gs in all_paths(prev):
            if any(f == '' for f in gs):
                continue
            k = 0
            while k < min(len(fs), len(gs)) and fs[k] == gs[k]:
                k += 1
            if k < len(gs) and k < len(fs):
                if me.select(cur, mkpath(gs)) is not me.select(prev, mkpath(gs)) and not equiv(me.select(cur, mkpath(gs)), me.select(prev, mkpath(gs))):
                    return f'{gs!r} changed by setting {fs!r}'
