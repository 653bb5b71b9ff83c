"""Command-line text is parsed without loss and is either parsed or rejected with a parse error."""
import math
import marsh
from marsh import parse as mp
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C07', modules=['parse'], extra_modules=['element', 'kinds'],
         rule='random texts over the reserved characters, and renderings of random elements with random quoting, spacing and brackets',
         limits=['the exact value of a bracketed element (sequence, mapping) is covered by the bounded oracles; the contracts say that it is a result of the right kind or a ParseError'])
P.replay_ns = NS

CH = list('ab1 ,:{}[]()"\'\\+=@~.-e') + ['é', '\n', '\t', '\x0b', '\u00a0', '\u2003', '\x1c']
WORDS = ['a', 'true', 'null', '1', '1.5', '-2', 'x y', '"', "'", '\\', '{', '}', '[', ']', '(', ')', ',', ':', '=', '+=', '@', '+@', '~', ' ', '.', '\\"', 'nan', '1e400', 'inf', '٣', '1_0']


def _text(rng):
    return ''.join(rng.choice(CH if rng.random() < .7 else WORDS) for _ in range(rng.randint(0, rng.choice([2, 4, 8, 14]))))


def _gtext(rng):
    return (_text(rng),)


def _small():
    import itertools
    for n in range(5):
        for w in itertools.product(['a', '"', '\\', '[', ']', '{', '}', ',', ':', ' '], repeat=n):
            if n < 4 or w[0] in '[{"':
                yield (''.join(w),)


FNS = ['string', 'terminal', 'element', 'sequence', 'mapping', 'config_names', 'override']


@P.oracle(gen=_gtext, enum=_small, n=8000)
def parsed_or_rejected(text):
    """every parser returns or raises ParseError, which knows the text and the part of it that remains"""
    for f in FNS:
        try:
            r = getattr(mp, f)(text)
        except mp.ParseError as e:
            if e.source != text:
                return f'{f}: the error has source {e.source!r}'
            if not text.endswith(e.remaining):
                return f'{f}: {e.remaining!r} is not the rest of {text!r}'
            str(e)
            continue
        if f == 'sequence' and not is_seq(r) or f == 'mapping' and not is_map(r) or f == 'string' and type(r) is not str:
            return f'{f} gives {r!r}'
        if f == 'config_names' and not (is_seq(r) and all(type(x) is str for x in r)):
            return f'{f} gives {r!r}'


# ------------------------------------------------------------- rendering
def quote(s, q):
    return q + ''.join('\\' + c if c in (q, '\\') else c for c in s) + q


def special(s):
    try:
        float(s)
        return True
    except ValueError:
        return s.lower() in ('true', 'false', 'null') or not s


def render_str(rng, s, key=False):
    r = rng.random()
    if r < .4 and (key or not special(s)):
        # bare: every reserved character (and space) is escaped
        return ''.join('\\' + c if c in '\\"\'{}[](),:+=@~' or c.isspace() or rng.random() < .1 else c for c in s) or '""'
    return quote(s, rng.choice('"\''))


def sp(rng):
    return rng.choice(['', '', '', ' ', '  ', '\t', '\n', ' \x0b', '\u00a0', '\u2003\r\n', '\x1c'])


def render(rng, v):
    if is_map(v):
        return '{' + ','.join(sp(rng) + render_str(rng, k, True) + (sp(rng) if False else '') + ':' + sp(rng) + render(rng, x) for k, x in v.items()) + '}'
    if is_seq(v):
        o, c = rng.choice(['[]', '()'])
        return o + sp(rng) + ','.join(sp(rng) + render(rng, x) for x in v) + c
    if isinstance(v, str):
        return render_str(rng, v)
    if v is None:
        return rng.choice(['null', 'Null', 'NULL'])
    if isinstance(v, bool):
        return rng.choice([str(v), str(v).lower(), str(v).upper()])
    return repr(v)


def parsed(v):
    """what the text of v stands for"""
    if is_map(v):
        return {k: parsed(x) for k, x in v.items()}
    if is_seq(v):
        return tuple(parsed(x) for x in v)
    if isinstance(v, float) and math.isfinite(v) and v == int(v):
        return int(v)
    return v


def _gel(rng):
    import random
    v = gens.element(rng, rng.choice([0, 1, 2, 4]), scal)
    if rng.random() < .5 and not is_map(v) and not is_seq(v):
        v = gens.element(rng, 4, scal)
    return v, sp(rng) + render(rng, v)


def scal(rng):
    r = rng.random()
    if r < .1:
        return rng.choice(['1', 'true', 'null', '1.5', '', '~', 'nan', ' a', 'a ', '{a:1}', '[1]', "'", '"', '\\', 'True', '0x1', '1e5'])
    if r < .2:
        return rng.randrange(-10 ** rng.randint(1, 40), 10 ** rng.randint(1, 40))
    if r < .3:
        return rng.choice([1e16, 2.5e-8, math.inf, -math.inf, 0.1, 123456789.125, rng.uniform(-1e9, 1e9)])
    return gens.scalar(rng)


@P.oracle(gen=_gel, n=6000)
def rendered_elements_parse_back(v, text):
    """parsing the text of an element gives the element back, followed by nothing"""
    r = mp.element(text)
    if not same(r, parsed(v)):
        return f'{text!r} is parsed as {r!r}'
    if is_seq(v) and not same(mp.sequence(text), parsed(v)) or is_map(v) and not same(mp.mapping(text), parsed(v)):
        return 'sequence / mapping differs from element'
    if is_seq(v) or is_map(v) or text.strip()[:1] in '"\'' and text.strip():
        for junk in ('x', ' x', ',', ']', '}', ' 1', '"'):
            try:
                return f'{text + junk!r} is parsed as {mp.element(text + junk)!r}'
            except mp.ParseError:
                pass
        if not same(mp.element(text + ' '), parsed(v)):
            return 'trailing space'


def _gstr(rng):
    return gens.text(rng, 8, CH), rng.choice('"\'')


@P.oracle(gen=_gstr, n=5000)
def quoted_text_is_kept(s, q):
    """a quoted (or wholly escaped) text is the text itself, never a number, word or container"""
    t = quote(s, q)
    for f in (mp.string, mp.terminal, mp.element):
        r = f(t)
        if type(r) is not str or r != s:
            return f'{f.__name__}({t!r}) = {r!r}'
    t = ''.join('\\' + c for c in s)
    if mp.string(t) != s:
        return f'string({t!r}) = {mp.string(t)!r}'
    if s and len(s) > 1 and q == '"':
        for cut in range(1, len(s)):
            u = quote(s, q)[:-1]
            try:
                return f'{u!r} is parsed as {mp.element(u)!r}'
            except mp.ParseError:
                break


def _gnum(rng):
    r = rng.random()
    if r < .5:
        return (rng.randrange(-10 ** rng.randint(1, 60), 10 ** rng.randint(1, 60)),)
    if r < .7:
        return (rng.choice([2 ** 53 + 1, -2 ** 63 - 1, 10 ** 22 + 1, 10 ** 308, 10 ** 309, 0, -1]),)
    return (rng.choice([rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10 ** rng.randint(-300, 300), 5e-324, 1.7976931348623157e308, -0.5]),)


@P.oracle(gen=_gnum, n=2000)
def numbers_are_exact(x):
    """the text of a number is that number"""
    for f in (mp.terminal, mp.element):
        r = f(repr(x))
        if type(r) not in (int, float) or r != x:
            return f'{f.__name__}({repr(x)!r}) = {r!r}'
        if isinstance(x, int) and type(r) is not int:
            return f'{r!r} is no int'


# ------------------------------------------------------------- overrides
def _gov(rng):
    fs = [gens.key(rng) for _ in range(rng.randint(0, 3))]
    path = mkpath(fs)
    v = gens.element(rng, 3, scal)
    op = rng.choice(['=', '+=', '~', '@', '+@'])
    names = [gens.text(rng, 5) or 'n' for _ in range(rng.randint(1, 3))]
    p = render_path(rng, path)
    if op == '~':
        t = '~' + p
    elif op in ('=', '+='):
        t = p + op + sp(rng) + render(rng, v)
    else:
        ns = [render_name(rng, n) for n in names]
        t = p + op + (','.join(ns) if rng.random() < .6 else rng.choice(['[%s]', '(%s)']) % ','.join(ns))
    return path, op, v, names, sp(rng) + t


def render_path(rng, s):
    if rng.random() < .3 and s:
        return quote(s, rng.choice('"\''))
    return ''.join('\\' + c if c in '\\"\'+=@~' or c.isspace() else c for c in s)


def render_name(rng, s):
    if rng.random() < .4:
        return quote(s, rng.choice('"\''))
    return ''.join('\\' + c if c in '\\"\'[](),' or c.isspace() else c for c in s)


@P.oracle(gen=_gov, n=5000)
def overrides_are_what_is_written(path, op, v, names, text):
    """kind, path, value and names of an override are the ones that were written"""
    o = mp.override(text)
    kind = {'=': mp.SetValue, '+=': mp.SetValue, '~': mp.DeleteValue}.get(op, mp.SetConfig)
    if type(o) is not kind or o.path != path:
        return f'{text!r} is parsed as {o!r}'
    if op != '~' and o.combine is not (op[0] == '+'):
        return f'combine: {o!r}'
    if kind is mp.SetValue and not same(o.value, parsed(v)):
        return f'{text!r} is parsed as {o!r}'
    if kind is mp.SetConfig and list(o.names) != names:
        return f'{text!r} is parsed as {o!r}'


def _gap(rng):
    v = gens.element(rng, 3)
    ps = a_path(rng, v)
    return v, mkpath(ps), gens.element(rng, 2), rng.choice(['=', '+=', '~'])


@P.oracle(gen=_gap, n=3000)
def applying_an_override(v, path, w, op):
    """applying an override does what the element functions do with its path and value"""
    o = mp.DeleteValue(path=path) if op == '~' else mp.SetValue(path=path, value=w, combine=op == '+=')

    def run(f):
        try:
            return 'ok', f()
        except marsh.errors.PathError as e:
            return 'path', e.path
        except ValueError as e:
            return 'value', ''
    b4 = frozen(v)
    if op == '~':
        want = ('path', '') if not is_map(v) and not is_seq(v) else run(lambda: marsh.element.remove(v, path))
    else:
        want = run(lambda: marsh.element.override(v, w, path, combine=op == '+='))
    got = run(lambda: o.apply(v))
    if got[0] != want[0] or not same(got[1], want[1]):
        return f'{got!r}, wanted {want!r}'
    if not same(v, b4):
        return 'the element was modified'
