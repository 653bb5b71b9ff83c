"""Removing by path: exactly that element is gone, everything else is as before."""
import marsh
from marsh import element as me
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C04', modules=[], contracts=['remove'], extra_modules=['element', 'kinds'],
         rule='random nested elements and paths into them (mutated)')
P.replay_ns = NS


def ref_remove(v, fs):
    if is_map(v):
        return {k: (ref_remove(x, fs[1:]) if k == fs[0] else x) for k, x in v.items() if not (k == fs[0] and len(fs) == 1)}
    i = index(fs[0], len(v))
    xs = list(v)
    if len(fs) == 1:
        return tuple(xs[:i] + xs[i + 1:])
    return tuple(xs[:i] + [ref_remove(xs[i], fs[1:])] + xs[i + 1:])


def _gen(rng):
    v = element(rng)
    return exotic(rng, v), path_text(rng, a_path(rng, v))


@P.oracle(gen=_gen, n=5000)
def remove_takes_one_place(v, p):
    """remove equals the reference; the input is unchanged; errors carry the path of the deepest existing element"""
    b4 = frozen(v)
    fs = fields_of(p)
    try:
        got = ('ok', me.remove(v, p))
    except marsh.errors.PathError as e:
        got = ('path', e)
    except ValueError as e:
        got = ('value', e)
    if not same(v, b4):
        return f'the element was modified: {v!r}'
    if fs is None:
        return None if got[0] == 'path' and got[1].path == '' else f'malformed path: {got!r}'
    if not fs or not (is_map(v) or is_seq(v)):
        return None if got[0] == 'value' else f'{got!r} where ValueError is documented'
    tr = trail(v, fs)
    if len(tr) <= len(fs):
        if got[0] != 'path':
            return f'{got!r} for a path that does not exist'
        return None if err_path(got[1]) == fs[:len(tr) - 1] else f'error path {got[1].path!r}, wanted {fs[:len(tr) - 1]!r}'
    if got[0] != 'ok':
        return f'{got!r} for an existing path'
    want = ref_remove(v, fs)
    if not equiv(got[1], want) or list(all_paths(got[1])) != list(all_paths(want)):
        return f'{got[1]!r}, wanted {want!r}'


@P.oracle(gen=lambda rng: ({gens.key(rng): gens.scalar(rng) for _ in range(4)}, gens.key(rng), gens.scalar(rng), gens.scalar(rng)), n=1000)
def remove_undoes_override(v, k, x, y):
    """removing what override added gives the element back"""
    if k == '' or k in v:
        raise Skip
    p = mkpath([k])
    if me.remove(me.override(v, x, p), p) != v:
        return 'not undone'
    w = [x, y, 1]
    if me.remove(me.override(w, y, '3'), '3') != (x, y, 1) or me.remove(w, '-1') != (x, y):
        return 'sequence: not undone'
