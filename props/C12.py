"""A union is the first of its types that accepts the element."""
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from . import typed
from .typed import gtype, gfor, gmember, outcome, wanted, eq, build

P = Prop('C12', modules=['schemas', 'construct', 'setups'], extra_modules=['kinds', 'path', 'element', 'cast'], contracts=['optional_schema', 'is_union', 'is_optional', 'union_match', 'union_unmarshal', 'union_init', 'literal_match', 'literal_value_match', 'literal_init', 'literal_value_init', 'enum_init'],
         rule='unions of random types in random order, also nested in containers, and templates with nested schemas that fail in arbitrary ways',
         limits=['typing flattens nested unions and removes duplicates before the code sees them'])
P.replay_ns = NS


def _gen(rng):
    ts = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        t = rng.choice([('int',), ('str',), ('bool',), ('float',), ('lit', (1,)), ('lit', ('1', 2)), ('list', ('int',)), ('dict', ('str',), ('int',))]) if rng.random() < .6 else gmember(rng, 1)
        if t not in ts:
            ts.append(t)
    if rng.random() < .4:
        ts.insert(rng.randint(0, len(ts)), ('none',))
        if rng.random() < .5:
            ts = [('none',), next(t for t in ts if t[0] != 'none')]
            rng.shuffle(ts)
    if len(ts) == 1:
        ts.append(('none',))
    spec = ('union', tuple(ts)) + rng.choice([(), (), ('|',)])
    if rng.random() < .4:
        spec = rng.choice([('list', spec), ('dict', ('str',), spec), ('dc', (('a', spec, None, 'pk'), ('b', spec, ('v', 7), 'pk'))), ('tup', (spec, spec))])
    return spec, gfor(rng, spec)


@P.oracle(gen=_gen, n=8000)
def first_success(spec, x):
    """the result is that of the first member, in order, that accepts the element; rejected only if all reject it. An Optional is None for None or a missing element unless the other type accepts it, and otherwise fails as the other type does"""
    try:
        w = wanted(spec, x)
    except TypeError:
        raise Skip
    g = outcome(spec, x)
    if g[0] != w[0] or g[1] != w[1] and (g[0] == 'bad' or not eq(g[1], w[1])) or g[0] == 'bad' and g[2] != w[2]:
        return f'{g[:3]!r}, wanted {w!r}'


class Stub(marsh.schema.UnmarshalSchema):
    def __init__(self, log, i, what, value):
        super().__init__(value)
        self.log, self.i, self.what = log, i, what

    def unmarshal(self, element):
        self.log.append((self.i, element))
        if self.what == 'ok':
            return ('value', self.i)
        raise {'marsh': lambda: marsh.errors.UnmarshalError('no', path='p.q'), 'zero': ZeroDivisionError, 'type': TypeError, 'key': lambda: KeyError('x'), 'missing': lambda: marsh.errors.MissingValueError(path='r'), 'path': lambda: marsh.errors.PathError('z')}[self.what]()


WHATS = ['ok', 'marsh', 'zero', 'type', 'key', 'missing', 'path']


def _gstub(rng):
    n = rng.randint(1, 4)
    return [rng.choice(WHATS) for _ in range(n)], rng.randint(0, n) if n == 2 and rng.random() < .6 else None, rng.choice([None, '???', 1, 'a', {}, []]), rng.choice([None, None, 'dflt'])


@P.oracle(gen=_gstub, n=4000)
def templates(whats, none_at, x, default):
    """members are asked in order until one accepts, whatever the others raise"""
    log = []
    opt = none_at is not None and none_at < 2
    s = marsh.schema.template.UnionUnmarshalSchema(Optional[int] if opt else Union[int, str], **({'default': default} if default else {}))
    s.schemas = tuple(Stub(log, i, w, type(None) if opt and i == none_at else int) for i, w in enumerate(whats))
    err = None
    try:
        r = s.unmarshal(x)
    except Exception as e:
        err = e
    missing = x == '???'
    if missing and default:
        return None if err is None and r == default and not log else f'default: {err!r} {log!r}'
    if opt:
        i = 1 - none_at
        if log != [(i, x)]:
            return f'asked {log!r}'
        if whats[i] == 'ok':
            return None if err is None and r == ('value', i) else f'{err!r}'
        if x is None or missing:
            return None if err is None and r is None else f'{err!r}'
        want = {'marsh': marsh.errors.UnmarshalError, 'zero': ZeroDivisionError, 'type': TypeError, 'key': KeyError, 'missing': marsh.errors.MissingValueError, 'path': marsh.errors.PathError}[whats[i]]
        if type(err) is not want or whats[i] == 'marsh' and err.path != 'p.q':
            return f'{err!r}'
        return
    first = next((i for i, w in enumerate(whats) if w == 'ok'), None)
    if log != [(i, x) for i in range(len(whats) if first is None else first + 1)]:
        return f'asked {log!r}'
    if first is not None:
        return None if err is None and r == ('value', first) else f'{err!r}'
    if type(err) is not (marsh.errors.MissingValueError if missing else marsh.errors.UnmarshalError) or err.path:
        return f'{err!r}'


def _gord(rng):
    ts = rng.sample([('int',), ('str',), ('bool',), ('float',), ('list', ('int',)), ('list', ('str',)), ('lit', (1, 'a')), ('lit', ('1',))], rng.randint(2, 4))
    ws = list(ts)
    rng.shuffle(ws)
    wrap = rng.choice(['', 'list', 'dict', 'fn'])
    x = rng.choice(['1', 1, True, 'true', 1.0, '1.5', 'a', ['1'], [1], None])
    return tuple(ts), tuple(ws), wrap, x


@P.oracle(gen=_gord, n=3000)
def order_matters(ts, ws, wrap, x):
    """types that differ in the order of a union's members are told apart, whichever was used first"""
    for us in (ts, ws, ts):
        spec = ('union', us)
        y = x
        if wrap == 'list':
            spec, y = ('list', spec), [x]
        elif wrap == 'dict':
            spec, y = ('dict', ('str',), spec), {'a': x}
        elif wrap == 'fn':
            spec, y = ('fn', (('p', spec, None, 'pk'),)), {'p': x}
        m = first_success(spec, y)
        if m:
            return f'{us}: {m}'
