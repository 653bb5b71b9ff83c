"""Paths are lossless: joining / prepending / appending fields and splitting."""
import itertools
import marsh
from marsh import path as mp
from pyvc.prop import Prop, Skip
from pyvc import gens

P = Prop('C01', modules=['path'], lemmas=['C01_split_join'],
         rule='random and enumerated field lists, paths and delimiters over an alphabet with quotes, escapes and delimiters')


def ref_split(path, d):
    """independent reading of the documented path grammar; None = malformed"""
    out, cur, i, q = [], '', 0, None
    while i < len(path):
        c = path[i]
        if c == '\\':
            if i + 1 >= len(path):
                return None
            cur += path[i + 1]
            i += 2
            continue
        if q is not None:
            if c == q:
                q = None
            else:
                cur += c
        elif c in '"\'':
            q = c
        elif c == d:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    if q is not None:
        return None
    out.append(cur)
    return tuple(x for x in out if x)


def _fields(rng):
    return [gens.text(rng, 4) for _ in range(rng.randint(0, 4))], rng.choice('...:/')


def _small():
    al = ['a', '.', '\\', '"']
    words = [''.join(w) for n in range(4) for w in itertools.product(al, repeat=n)]
    for w in words:
        yield ([w], '.')
        yield ([w, 'b'], '.')
        yield (['b', w], '.')


@P.oracle(gen=_fields, enum=_small, n=3000)
def join_then_split(fields, d):
    """split(join_fields(fields)) gives the non-empty fields back; so do head and tail."""
    want = tuple(f for f in fields if f)
    p = mp.join_fields(fields, delimiter=d)
    if mp.split(p, delimiter=d) != want:
        return f'split({p!r}) = {mp.split(p, delimiter=d)!r}, wanted {want!r}'
    h, t = mp.head(p, delimiter=d), mp.tail(p, delimiter=d)
    if want:
        if h.head != want[0] or mp.split(h.path, delimiter=d) != want[1:]:
            return f'head({p!r}) = {h!r}'
        if t.tail != want[-1] or mp.split(t.path, delimiter=d) != want[:-1]:
            return f'tail({p!r}) = {t!r}'
    elif h != ('', '') or t != ('', ''):
        return f'head/tail of the empty path: {h!r} {t!r}'


def _pf(rng):
    return gens.text(rng, 8), gens.text(rng, 4), rng.choice('...:/')


def _pf_small():
    al = ['a', '.', '\\', '"', "'"]
    words = [''.join(w) for n in range(4) for w in itertools.product(al, repeat=n)]
    for w in words:
        for f in ('a', '', '.', 'x.y', '\\'):
            yield (w, f, '.')


@P.oracle(gen=_pf, enum=_pf_small, n=4000)
def extend_then_split(path, field, d):
    """prepend and append add exactly one field; splitting follows the grammar."""
    want = ref_split(path, d)
    if want is None:
        for f in (mp.split, mp.head, mp.tail):
            try:
                r = f(path, delimiter=d)
            except marsh.errors.PathError as e:
                if e.path != '':
                    return f'error path {e.path!r}'
                continue
            return f'{f.__name__}({path!r}) = {r!r} for a malformed path'
        return None
    if mp.split(path, delimiter=d) != want:
        return f'split({path!r}) = {mp.split(path, delimiter=d)!r}, the grammar says {want!r}'
    if tuple(mp.iterative_split(path, delimiter=d)) != want:
        return 'iterative_split differs from split'
    one = (field,) if field else ()
    for f, w in ((mp.prepend, one + want), (mp.append, want + one)):
        r = f(path, field, delimiter=d)
        if mp.split(r, delimiter=d) != w:
            return f'{f.__name__}({path!r}, {field!r}) = {r!r} which splits into {mp.split(r, delimiter=d)!r}, wanted {w!r}'
    e = mp.escape_field(field, delimiter=d)
    if mp.split(e, delimiter=d) != one:
        return f'escape_field({field!r}) = {e!r}'


def _chain(rng):
    return [(rng.random() < .5, gens.text(rng, 3)) for _ in range(rng.randint(0, 5))], rng.choice('..:')


@P.oracle(gen=_chain, n=2000)
def build_step_by_step(steps, d):
    """a path built by any sequence of prepend / append has exactly those fields"""
    p, want = '', ()
    for front, f in steps:
        one = (f,) if f else ()
        if front:
            p, want = mp.prepend(p, f, delimiter=d), one + want
        else:
            p, want = mp.append(p, f, delimiter=d), want + one
    if mp.split(p, delimiter=d) != want:
        return f'{p!r} splits into {mp.split(p, delimiter=d)!r}, wanted {want!r}'
    for want_one, r in ((want[:1], mp.head(p, delimiter=d).head), (want[-1:], mp.tail(p, delimiter=d).tail)):
        if r != (want_one[0] if want_one else ''):
            return f'head/tail of {p!r} is {r!r}'
