"""Namespaces: a name in an element picks the registered component of that name."""
import dataclasses
from typing import *  # noqa

import marsh
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C21', modules=['types', 'namespaces'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling'],
         contracts=['find_namespace', 'namespace_unmarshal', 'namespace_marshal', 'ns_find_class', 'ns_below', 'ns_register', 'ns_build', 'ns_new', 'ns_get', 'ns_del', 'all_subclasses', 'all_namespaces', 'all_find_class'],
         rule='random histories of creating and deleting namespaces, registering and replacing components, and of unmarshaling, marshaling and building them, compared with a model',
         limits=['names are not empty', 'components whose own data has an entry called name can not be marshaled (documented)'])
P.replay_ns = NS


@dataclasses.dataclass
class B0:
    x: int = 1


@dataclasses.dataclass
class B1(B0):
    y: int = 2


@dataclasses.dataclass
class C0(B0):
    z: int = 3


@dataclasses.dataclass
class C1(B1):
    z: int = 4


@dataclasses.dataclass
class C2(B1):
    c: Optional[B0] = None


@dataclasses.dataclass
class N(B1):
    name: str = 'own'


class PB:
    def __eq__(self, o):
        return type(o) is PB

    def __repr__(self):
        return 'PB()'


class F(PB):
    def __init__(self, q: int = 0, *rest: int):
        self.q, self.rest = q, rest

    def __eq__(self, o):
        return type(o) is F and (o.q, o.rest) == (self.q, self.rest)

    def __repr__(self):
        return f'F({self.q}, {self.rest})'


@dataclasses.dataclass
class Holder:
    h: B0
    k: int = 0


CLASSES = [B0, B1, C0, C1, C2, N, F, PB]
FIELDS = {B0: 'x', B1: 'xy', C0: 'xz', C1: 'xyz', C2: 'xyc', N: ('x', 'y', 'name'), PB: ''}
NAMES = ['a', 'b', 'own', 'c']


def _ops(rng):
    ops = [('new', 0, rng.choice([0, 0, 0, 1, 7]))]
    for _ in range(rng.randint(2, 16)):
        k = rng.random()
        if k < .2:
            ops.append(('new', rng.randint(0, 2), rng.choice([0, 0, 1, 1, 5, 7])))
        elif k < .27:
            ops.append(('del', rng.randint(0, 2)))
        elif k < .55:
            ops.append(('reg', rng.choice([0, 0, 0, 1, 2]), rng.choice(NAMES[:2] + NAMES), rng.randint(0, 7), rng.random() < .4, rng.random() < .3))
        elif k < .8:
            ops.append(('un', rng.randint(0, 7), rng.choice(NAMES + [None, None, '???', 'nope', 1]), rng.choice(['plain', 'list', 'holder', 'dict']), rng.randint(0, 5)))
        elif k < .9:
            ops.append(('ma', rng.randint(0, 6), rng.choice(['plain', 'list', 'holder'])))
        else:
            ops.append(('build', rng.choice([0, 0, 1, 2]), rng.choice(NAMES + ['nope']), rng.randint(0, 5), rng.choice(['kw', 'el', 'both', 'none', 'args', 'elargs', 'mix', 'bad', 'Noneargs', 'Nonekw'])))
    return ops + [('un', rng.randint(0, 4), rng.choice(NAMES + [None]), 'plain', 1)] * 2,


def outcome(f):
    try:
        return 'ok', f()
    except marsh.errors.MarshError as err:
        return 'error', type(err).__name__, err_path(err)
    except (KeyError, ValueError, TypeError) as err:
        return 'error', type(err).__name__, None


def plain(c, e):
    """what unmarshaling e as the class c without namespaces gives"""
    if c is F:
        if isinstance(e, dict):
            if set(e) - {'q', 'rest'}:
                raise Skip
            return F(e.get('q', 0))
        return F(*e)
    if set(e) - set(FIELDS[c]):
        return None
    if 'name' in e:
        e = {**e, 'name': str(e['name']) if e['name'] != '???' else 'own'}
    return c(**e)


@P.oracle(gen=_ops, n=3000)
def history(ops):
    """after any history the components are the ones that are registered now"""
    spaces = {}     # name -> (base, {name: class})
    try:
        for n, op in enumerate(ops):
            bad = step(op, spaces)
            if bad:
                return f'{op} after {ops[:n]}: {bad}'
            names = {f'verif_{k}' for k in spaces}
            if {x for x in marsh.namespaces if x.startswith('verif_')} != names or any((x in marsh.namespaces) != (x in names) for x in ('verif_0', 'verif_1', 'verif_2')):
                return f'after {ops[:n + 1]} there are {list(marsh.namespaces)}'
            for k, (base, comps) in spaces.items():
                ns = marsh.namespaces[f'verif_{k}']
                if list(ns) != list(comps) or len(ns) != len(comps) or ns.base is not base or any(ns.components[x] is not c for x, c in comps.items()) or 'nope' in ns:
                    return f'after {ops[:n + 1]} {ns.name} has {ns.components}, wanted {comps}'
    finally:
        for k in spaces:
            del marsh.namespaces[f'verif_{k}']
        marsh.schema.UnmarshalSchema.cache_clear()
    return None


def lookup(spaces, t, name):
    for base, comps in spaces.values():
        for x, c in comps.items():
            if x == name and issubclass(c, t):
                return c
    return None


def expected(spaces, t, e):
    """what unmarshaling the mapping e as t gives: a value, or None where it is rejected, and the path"""
    inside = any(issubclass(t, base) for base, _ in spaces.values())
    e = dict(e)
    if inside and 'name' in e:
        name = e.pop('name')
        if name != '???':
            t = lookup(spaces, t, name)
            if t is None:
                return None, ('name',)
    return plain(t, e), None


def step(op, spaces):
    kind = op[0]
    if kind == 'new':
        _, k, b = op
        got = outcome(lambda: marsh.namespaces.new(f'verif_{k}', CLASSES[b]))
        if (got[0] == 'ok') == (k in spaces):
            return f'{got}'
        if k not in spaces:
            spaces[k] = (CLASSES[b], {})
        return None
    if kind == 'del':
        got = outcome(lambda: marsh.namespaces.__delitem__(f'verif_{op[1]}'))
        if (got[0] == 'ok') != (op[1] in spaces):
            return f'{got}'
        spaces.pop(op[1], None)
        return None
    if kind == 'reg':
        _, k, name, c, replace, deco = op
        if k not in spaces:
            return None
        base, comps = spaces[k]
        c = CLASSES[c]
        ns = marsh.namespaces[f'verif_{k}']

        def reg():
            if not deco:
                return ns.register(c, name=name, replace=replace)
            d = ns.register(name=name, replace=replace)
            if name in ns:
                ns[name]
            return d(c)
        got = outcome(reg)
        ok = issubclass(c, base) and (name not in comps or replace)
        if ok != (got[0] == 'ok') or ok and got[1] is not c:
            return f'{got}'
        if ok:
            comps[name] = c
            made = outcome(lambda: ns.build(name=name))
            if made[0] != 'ok' or type(made[1]) is not c:
                return f'{name} was registered as {c} and is built as {made}'
        return None
    if kind == 'un':
        _, t, name, form, x = op
        t = CLASSES[t]
        e = {'x': x} if t not in (F, PB) and x else {}
        if name is not None:
            e['name'] = name
        before = dict(e)
        if form == 'holder':
            t = B0
        want, path = expected(spaces, t, e)
        T, el, pick, pre = {'plain': (t, e, lambda v: v, ()), 'list': (List[t], [e], lambda v: v[0], ('0',)), 'dict': (Dict[str, t], {'k': e}, lambda v: v['k'], ('k',)), 'holder': (Holder, {'h': e, 'k': 3}, lambda v: v.h, ('h',))}[form]
        got = outcome(lambda: pick(marsh.unmarshal(T, el)))
        if e != before:
            return f'the element became {e}'
        if want is None:
            if got[0] == 'ok' or path is not None and tuple(got[2]) != pre + path:
                return f'{got}, it should be rejected at {pre + (path or ())}'
        elif got[0] != 'ok' or type(got[1]) is not type(want) or got[1] != want:
            return f'{got}, wanted {want}'
        return None
    if kind == 'ma':
        _, c, form = op
        c = CLASSES[c]
        if c in (F, PB):
            return None
        v = c()
        tag = None
        for base, comps in reversed(spaces.values()):
            if issubclass(c, base):
                tag = next((x for x, k in comps.items() if k is c), None)
                if tag:
                    break
        got = outcome(lambda: marsh.marshal({'plain': v, 'list': [v], 'holder': Holder(v)}[form]))
        if tag and c is N:
            return None if got[0] == 'error' else f'{got}: the name of the component and its own'
        if got[0] != 'ok':
            return f'{got}'
        e = {'plain': lambda e: e, 'list': lambda e: e[0], 'holder': lambda e: e['h']}[form](got[1])
        want = {f: getattr(v, f) for f in FIELDS[c]}
        if tag:
            want['name'] = tag
        if e != want:
            return f'{e}, wanted {want}'
        if tag:
            t = next(b for b, comps in spaces.values() if comps.get(tag) is c)
            if lookup(spaces, t, tag) is c:
                back = outcome(lambda: marsh.unmarshal(t, e))
                if back[0] != 'ok' or type(back[1]) is not c or back[1] != v:
                    return f'marshaled to {e}, unmarshaled to {back}'
        return None
    _, k, name, x, form = op
    if k not in spaces:
        return None
    ns = marsh.namespaces[f'verif_{k}']
    c = spaces[k][1].get(name)
    args, kwargs, el = {'kw': ((), {'x': x}, None), 'el': ((), {}, {'x': x}), 'both': ((), {'x': x}, {'x': 77}), 'none': ((), {}, None), 'args': ((x, 1, 2), {}, None), 'elargs': ((1, 2), {}, [x]), 'mix': ((1,), {'x': 1}, None),
                        'bad': ((1,), {}, {'x': 1}), 'Noneargs': ((x,), {}, 'None'), 'Nonekw': ((), {'x': x}, 'None')}[form]
    before = None if el is None else el.copy() if el != 'None' else None
    got = outcome(lambda: ns.build(*(() if el is None and not args else (marsh.MISSING if el is None else None if el == 'None' else el,)), *args, name=name, **kwargs))
    if el not in (None, 'None') and el != before:
        return f'the element became {el}'
    if c is None:
        return None if got[:2] == ('error', 'UnmarshalError') else f'{got}'
    if form in ('mix', 'bad'):
        return None if got[:2] == ('error', 'TypeError') else f'{got}'
    if form in ('args', 'elargs', 'Noneargs'):
        if c is F:
            want = F(x, 1, 2) if form != 'Noneargs' else F(x)
        elif form == 'Noneargs':
            return None
        else:
            return None if got[0] == 'error' or c in FIELDS else f'{got}'
    elif c in (F, PB) and form != 'none':
        return None if got[0] == 'error' else f'{got}'
    elif c in (F, PB):
        want = c()
    else:
        want = c() if form == 'none' else c(x=x)
    if got[0] != 'ok' or type(got[1]) is not c or got[1] != want:
        return f'{got}, wanted {want}'
    return None
