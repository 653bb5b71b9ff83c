"""Selecting by path: exactly the element the fields lead to, or PathError at the deepest one that exists."""
import marsh
from marsh import element as me
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C02', modules=['kinds'], contracts=['iterative_select', 'select', 'is_mapping', 'is_sequence', 'is_obj_instance'], extra_modules=['element'],
         rule='random nested elements (several container types) with paths that lead somewhere in them, mutated')
P.replay_ns = NS


def _gen(rng):
    v = element(rng)
    p = path_text(rng, a_path(rng, v))
    return exotic(rng, v), p


@P.oracle(gen=_gen, n=5000)
def select_follows_the_fields(v, p):
    """select / iterative_select / select_path agree with following the fields one by one"""
    before = frozen(v)
    fs = fields_of(p)
    sels, err = [], None
    try:
        for s in me.iterative_select(v, p):
            sels.append(s)
    except marsh.errors.PathError as e:
        err = e
    try:
        got = ('ok', me.select(v, p))
    except marsh.errors.PathError as e:
        got = ('err', e)
    if not same(v, before):
        return f'the element was modified: {v!r}'
    if (err is None) != (got[0] == 'ok'):
        return f'select: {got!r}, iterative_select: {sels!r} {err!r}'
    if fs is None:
        return None if err is not None and err.path == '' and got[1].path == '' else f'malformed path {p!r}: {got!r} {err!r}'
    tr = trail(v, fs)
    ok = len(tr) == len(fs) + 1
    if len(sels) != len(tr):
        return f'{len(sels)} selections along {fs!r}, wanted {len(tr)}'
    for i, (s, want) in enumerate(zip(sels, tr)):
        if s.element is not want and not same(s.element, want):
            return f'selection {i} is {s.element!r}, wanted {want!r}'
        if fields_of(s.path) != fs[:i] or fields_of(s.remaining_path) != fs[i:]:
            return f'selection {i}: path {s.path!r} remaining {s.remaining_path!r} along {fs!r}'
    if ok:
        if err is not None:
            return f'{err!r} for an existing path'
        if got[1] is not tr[-1] and not same(got[1], tr[-1]):
            return f'select gives {got[1]!r}, wanted {tr[-1]!r}'
    else:
        if err is None:
            return f'{got[1]!r} for a path that does not exist'
        for e in (err, got[1]):
            if err_path(e) != fs[:len(tr) - 1]:
                return f'error path {e.path!r}, wanted {fs[:len(tr) - 1]!r}'


def _deep(rng):
    fs = [rng.choice(['a', 'b.c', '0', "q'", '\\']) for _ in range(rng.randint(5, 40))]
    return fs, rng.randint(0, len(fs)), rng.choice([1, None, 'x', '', (), {}])


@P.oracle(gen=_deep, n=300)
def deep_paths(fs, cut, leaf):
    """a path of any length selects the leaf of a chain; a longer one fails with the path of the leaf"""
    v = leaf
    for f in reversed(fs):
        v = {f: v, 'other': 1}
    if me.select(v, mkpath(fs)) is not leaf:
        return 'wrong leaf'
    sub = me.select(v, mkpath(fs[:cut]))
    if me.select(sub, mkpath(fs[cut:])) is not leaf:
        return 'selecting in two steps differs'
    try:
        me.select(v, mkpath(fs + ['zz', 'y']))
    except marsh.errors.PathError as e:
        if err_path(e) != tuple(fs):
            return f'error path {e.path!r}'
    else:
        return 'no error'
