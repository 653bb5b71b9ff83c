"""Random inputs (bounded evaluation)."""
import math

ALPH = list('ab.\\"\'1 ') + ['.', '\\', '/', 'é', '0', '-', '_']
RARE = ['\n', '\t', '\x0b', '\u00a0', '\u2003', '\u0661', '\U0001f600', '\x00', ':', '[', '{', '*', '~', 'A', 'ß', '\u0130', '\ud800', '=', ',']


def text(rng, maxlen=6, alph=None):
    alph = alph or ALPH
    return ''.join(rng.choice(alph if alph is not ALPH or rng.random() < .93 else RARE) for _ in range(rng.randint(0, maxlen)))


def key(rng):
    r = rng.random()
    if r < .5:
        return rng.choice(['a', 'b', 'c', '0', '1', 'x y', 'a.b', "it's", '', '\\', '-1', 'é'])
    return text(rng, 4)


def scalar(rng):
    r = rng.random()
    if r < .2:
        return rng.choice([None, True, False])
    if r < .45:
        return rng.choice([0, 1, -1, 2, 7, -12, 10 ** 20, 2 ** 53 + 1, -(2 ** 63)])
    if r < .6:
        return rng.choice([0.0, 1.0, -1.5, 0.1, 1e300, 2.0, 1e16, -0.25])
    return text(rng)


def element(rng, depth=3, scalars=scalar):
    r = rng.random()
    if depth <= 0 or r < .35:
        return scalars(rng)
    n = rng.choice([0, 1, 1, 2, 2, 3])
    if r < .65:
        return {key(rng): element(rng, depth - 1, scalars) for _ in range(n)}
    xs = [element(rng, depth - 1, scalars) for _ in range(n)]
    return xs if r < .85 else tuple(xs)


def value(sort, rng):
    if sort == 'str':
        return text(rng, rng.choice([3, 6, 12]))
    if sort == 'int':
        return rng.choice([0, 1, 2, 3, -1, -2, 10, rng.randint(-5, 8)])
    if sort == 'float':
        return rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 1e300, 1e16, float('nan'), float('inf'), rng.uniform(-5, 5)])
    if sort == 'bool':
        return rng.random() < .5
    if sort == 'val':
        return element(rng)
    if sort in ('lv', 'gen'):
        return [element(rng, 2) for _ in range(rng.randint(0, 4))]
    if sort == 'tuplelv':
        return tuple(element(rng, 2) for _ in range(rng.randint(0, 4)))
    if sort == 'le':
        return {key(rng): element(rng, 2) for _ in range(rng.randint(0, 4))}
    if sort == 'none':
        return None
    if isinstance(sort, tuple) and sort[0] == 'tuple':
        return tuple(value(s, rng) for s in sort[1:])
    from .contract import Const, Skip
    if isinstance(sort, Const):
        return sort.obj
    raise Skip


def gen_args(c, rng):
    out = {}
    for p, sort in c.sig.items():
        g = c.gens.get(p)
        if g is not None:
            out[p] = g(rng)
        elif p == 'delimiter':
            out[p] = rng.choice('...:/-')
        else:
            out[p] = value(sort, rng)
    return out
