"""Annotated types: annotations see the element and the value, in order."""
import dataclasses
import numbers
import sys
import types as pytypes
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C23', modules=['types', 'annotation'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling'],
         contracts=['annotated_unmarshal', 'positive', 'negative', 'unsigned', 'populated', 'pre_annotation', 'base_annotation'],
         rule='random nestings of sequences, mappings, dataclasses, named tuples, typed dicts, functions and (nested) annotated types, also written as text, with annotations that record, transform, reject or fail; random numbers and collections for the annotations that marsh has',
         limits=['annotation classes are created without arguments', 'numbers are compared by Python'])
P.replay_ns = NS
LEAVES = ['int', 'float', 'str', 'bool', 'Any', 'Optional[int]']
OTHER = ["'text'", '3', 'int', 'List[int]', 'len', 'object()', 'Plain', 'Plain()', 'None']
KINDS = ['log', 'log', 'change', 'value', 'key', 'type', 'marsh', 'deep', 'stop', 'assert']


def ganns(rng):
    """annotations: what they are, what they do when they are given something falsy, and how they are written"""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        if rng.random() < .2:
            out.append(('other', rng.randrange(len(OTHER)), 0))
        else:
            out.append((rng.choice(['pre', 'post', 'both']), rng.choice(KINDS), rng.choice(['class', 'instance', 'sub', 'twice', 'again'])))
    return tuple(out)


def gtype(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < .2:
        return ('leaf', rng.choice(LEAVES))
    if r < .6:
        return ('ann', gtype(rng, depth - 1), ganns(rng))
    if r < .75:
        return (rng.choice(['list', 'dict', 'tuple']), gtype(rng, depth - 1))
    return ('struct', rng.choice(['dataclass', 'namedtuple', 'typeddict', 'function', 'kwargs']), tuple(gtype(rng, depth - 1) for _ in range(rng.randint(1, 3))))


def gelem(rng, t):
    k = t[0]
    if k == 'ann':
        return gelem(rng, t[1])
    if k in ('list', 'tuple'):
        return [gelem(rng, t[1]) for _ in range(rng.randint(0, 3))]
    if k == 'dict':
        return {f: gelem(rng, t[1]) for f in rng.sample(['a', 'b', 'c.d', ''], rng.randint(0, 3))}
    if k == 'struct':
        fs = [('f%d' % i, gelem(rng, u)) for i, u in enumerate(t[2])]
        rng.shuffle(fs)
        return dict(fs)
    if rng.random() < .06:
        return rng.choice([[], {}, 'no'])
    return {'int': lambda: rng.choice([0, 1, 2, '3', '0']), 'float': lambda: rng.choice([0., 1.5, '2.5', 1]), 'str': lambda: rng.choice(['', 'a', 'b', 1]), 'bool': lambda: rng.choice([True, False, 'on', 'off']),
            'Any': lambda: rng.choice([0, 'a', '', True, [1], {'a': 1}]), 'Optional[int]': lambda: rng.choice([None, 0, 1, 'null'])}[t[1]]()


def _gen(rng):
    t = gtype(rng)
    return t, gelem(rng, t), rng.random() < .4


class Writer:
    """writes a type as the text of a module"""

    def __init__(self, future):
        self.lines = ['from __future__ import annotations'] if future else []
        self.lines += ['import dataclasses, collections, marsh', 'from typing import *', 'class Plain: pass']
        self.n = 0

    def name(self, p):
        self.n += 1
        return f'{p}{self.n}'

    def ann(self, a):
        kind, what, how = a
        if kind == 'other':
            return OTHER[what], None
        c = self.name('A')
        bases = {'pre': 'marsh.annotation.PreAnnotation', 'post': 'marsh.annotation.Annotation', 'both': 'marsh.annotation.PreAnnotation, marsh.annotation.Annotation'}[kind]
        self.lines += [f'class {c}({bases}):', f'    def __call__(self, x): return run({c!r}, {what!r}, x)']
        if how == 'sub':
            self.lines += [f'class {c}S({c}): pass']
        if how == 'twice':
            self.lines += [f'{c}I = {c}()']
        return c + {'class': '', 'instance': '()', 'sub': 'S', 'twice': 'I', 'again': ''}[how], (kind, c, what)

    def type(self, t):
        """the text of the type, and the type with the names of the annotations"""
        k = t[0]
        if k == 'leaf':
            return t[1], t
        if k == 'ann':
            text, u = self.type(t[1])
            anns = [self.ann(a) for a in t[2]]
            anns += [b for a, b in zip(t[2], anns) if a[2] in ('twice', 'again')]       # the same object (or class) again
            if not anns:
                return text, u
            return f'Annotated[{text}, {", ".join(a for a, _ in anns)}]', ('ann', u, [b for _, b in anns if b])
        if k in ('list', 'tuple', 'dict'):
            text, u = self.type(t[1])
            return {'list': f'List[{text}]', 'tuple': f'Tuple[{text}, ...]', 'dict': f'Dict[str, {text}]'}[k], (k, u)
        us = [self.type(u) for u in t[2]]
        c = self.name('T')
        fs = [(f'f{i}', text) for i, (text, _) in enumerate(us)]
        if t[1] in ('dataclass', 'namedtuple', 'typeddict'):
            self.lines += {'dataclass': ['@dataclasses.dataclass', f'class {c}:'], 'namedtuple': [f'class {c}(NamedTuple):'], 'typeddict': [f'class {c}(TypedDict):']}[t[1]]
            self.lines += [f'    {f}: {text}' for f, text in fs]
        else:
            star = '*, ' if t[1] == 'kwargs' else ''
            self.lines += [f'class {c}:', f'    def __init__(self, {star}' + ', '.join(f'{f}: {text}' for f, text in fs) + '):'] + [f'        self.{f} = {f}' for f, _ in fs]
        return c, ('struct', c, [u for _, u in us])


class Bad(Exception):
    pass


def reference(t, x, run, mod):
    k = t[0]
    if k == 'leaf':
        try:
            return marsh.unmarshal(eval(t[1], mod.__dict__), x)
        except marsh.errors.MarshError as err:
            raise Bad(err_path(err))
    if k == 'ann':
        # Annotated[Annotated[T, a], b] is Annotated[T, a, b]
        anns, u = list(t[2]), t[1]
        while u[0] == 'ann':
            anns, u = list(u[2]) + anns, u[1]

        def call(name, what, x):
            try:
                return run(name, what, x)
            except marsh.errors.MarshError as err:
                raise Bad(err_path(err))
            except Exception:
                raise Bad(())
        for kind, name, what in anns:
            if kind == 'pre':
                x = call(name, what, x)
        v = reference(u, x, run, mod)
        for kind, name, what in anns:
            if kind != 'pre':
                v = call(name, what, v)
        return v

    def nested(f, u, y):
        try:
            return reference(u, y, run, mod)
        except Bad as err:
            raise Bad(((f,) if f else ()) + tuple(err.args[0]))
    if k in ('list', 'tuple', 'dict') or k == 'struct':
        if k in ('list', 'tuple'):
            if not is_seq(x):
                raise Skip
            return (list if k == 'list' else tuple)([nested(str(i), t[1], y) for i, y in enumerate(x)])
        if not is_map(x):
            raise Skip
        if k == 'dict':
            return {f: nested(f, t[1], y) for f, y in x.items()}
        vals = {f'f{i}': nested(f'f{i}', u, x[f'f{i}']) for i, u in enumerate(t[2])}
        return getattr(mod, t[1])(**vals)


def run_with(log):
    def run(name, what, x):
        log.append((name, type(x).__name__, repr_of(x)))
        if what == 'change':
            return {'seq': list(x) * 2} if isinstance(x, (list, tuple)) else not x if isinstance(x, bool) else x + 1 if isinstance(x, (int, float)) else x + '1' if isinstance(x, str) else x
        if what != 'log' and not x:
            raise {'value': ValueError('no'), 'key': KeyError('f0'), 'type': TypeError('no'), 'marsh': marsh.errors.UnmarshalError('no'), 'deep': marsh.errors.UnmarshalError('no', path='deep.er'),
                   'stop': StopIteration(1), 'assert': AssertionError()}[what]
        return x
    return run


def repr_of(x):
    if is_map(x):
        return {k: repr_of(x[k]) for k in x}
    if is_seq(x):
        return [type(x).__name__] + [repr_of(y) for y in x]
    return repr_of(vars(x)) if hasattr(x, '__dict__') else repr(x)


@P.oracle(gen=_gen, n=2500)
def pipeline(t, x, future):
    """pre-annotations in order, then the type, then annotations in order; the first that rejects stops it"""
    w = Writer(future)
    text, t = w.type(t)
    w.lines.append(f'class Root:\n    def __init__(self, root: {text}):\n        self.root = root')
    name = 'vc23_module'
    mod = sys.modules[name] = pytypes.ModuleType(name)
    try:
        got_log, want_log = [], []
        mod.run = run_with(got_log)
        exec('\n'.join(w.lines), mod.__dict__)
        try:
            want = ('ok', repr_of(reference(t, x, run_with(want_log), mod)))
        except Bad as err:
            want = ('bad', ('root',) + tuple(err.args[0]))
        for _ in range(2):
            del got_log[:]
            try:
                got = ('ok', repr_of(marsh.unmarshal(mod.Root, {'root': x}).root))
            except marsh.errors.UnmarshalError as err:
                got = ('bad', err_path(err))
            if got != want:
                return f'{text} gave {got!r}, wanted {want!r}'
            if got_log != want_log:
                return f'{text} called {got_log!r}, wanted {want_log!r}'
    finally:
        del sys.modules[name]


def _absent(rng):
    return (rng.choice(['int', 'str', 'Any', 'Optional[int]', 'List[int]']), rng.choice([None, None, 'value', 'factory']), tuple(rng.choice(['log', 'log', 'fill']) for _ in range(rng.randint(0, 3))), rng.randint(0, 2), rng.choice(['absent', 'absent', 'given']),
            rng.choice(['dataclass', 'function']))


@P.oracle(gen=_absent, n=800)
def absent(text, default, pres, posts, how, kind):
    """pre-annotations see an element that is missing as such and may replace it; what is then still missing is the default, which annotations see as any value"""
    if not pres and not posts:
        raise Skip
    log = []

    def record(base, n, fill=None):
        def call(self, x):
            log.append((n, repr(x)))
            return fill if fill is not None and x is marsh.MISSING else x
        return type('A', (base,), {'__call__': call})
    good = [3] if text == 'List[int]' else '3'
    t = eval(text)
    ann = Annotated[(t, *[record(marsh.annotation.PreAnnotation, ('pre', i), good if p == 'fill' else None) for i, p in enumerate(pres)], *[record(marsh.annotation.Annotation, ('post', i)) for i in range(posts)])]
    dflt = [8] if text == 'List[int]' else '8' if text == 'str' else 8
    if kind == 'function':
        if default == 'factory':
            raise Skip

        def f(a): return a
        f.__annotations__ = {'a': ann}
        f.__defaults__ = (dflt,) if default else None
    else:
        f = dataclasses.make_dataclass('f', [('a', ann) if not default else ('a', ann, dataclasses.field(default_factory=lambda: dflt) if default == 'factory' or isinstance(dflt, list) else dataclasses.field(default=dflt))])
    want, x = [], good if how == 'given' else marsh.MISSING
    for i, p in enumerate(pres):
        want.append((('pre', i), repr(x)))
        if p == 'fill' and x is marsh.MISSING:
            x = good
    bad, v = False, None
    if x is marsh.MISSING and default:
        v = dflt
    else:
        try:
            v = marsh.unmarshal(t, x)
        except marsh.errors.MissingValueError:
            bad = True
    if not bad:
        want += [(('post', i), repr(v)) for i in range(posts)]
    for _ in range(2):
        del log[:]
        try:
            got = marsh.unmarshal(f, {'a': good} if how == 'given' else {})
            got = ('ok', repr(got if kind == 'function' else got.a))
        except marsh.errors.MissingValueError as err:
            got = ('bad', err_path(err))
        if got != (('bad', ('a',)) if bad else ('ok', repr(v))):
            return f'gave {got}, wanted {"a missing value" if bad else repr(v)}'
        if log != want:
            return f'called {log}, wanted {want}'


NUMS = [0, 1, -1, 0.0, -0.0, 0.5, -0.5, 1e-320, -1e-320, 10 ** 30, -10 ** 30, float('inf'), float('-inf'), float('nan')]
NAMES = {'Positive': lambda v: v > 0, 'Negative': lambda v: v < 0, 'Unsigned': lambda v: v >= 0}


def _builtin(rng):
    if rng.random() < .5:
        return rng.choice(list(NAMES)), rng.choice(['int', 'float']), rng.choice(NUMS + [rng.randint(-5, 5), rng.uniform(-1, 1)]), rng.random() < .5
    return 'Populated', rng.choice(['str', 'List[int]', 'Dict[str, int]', 'Set[int]', 'Tuple[int, ...]']), rng.choice(['', 'a', [], [0], {}, {'': 0}, [0, 0], [1, 1, 2], ' ']), rng.random() < .5


@P.oracle(gen=_builtin, n=1500)
def builtins(name, text, x, instance):
    """Positive, Negative, Unsigned and Populated accept exactly what they say and change nothing"""
    t = eval(text)
    ann = getattr(marsh.annotation, name)
    try:
        v = marsh.unmarshal(t, x)
    except marsh.errors.UnmarshalError:
        v = None
    want = v is not None and (len(v) > 0 if name == 'Populated' else NAMES[name](v))
    try:
        got = marsh.unmarshal(Annotated[t, ann() if instance else ann], x)
    except marsh.errors.UnmarshalError as err:
        return f'rejected: {err}' if want else None if v is None or err_path(err) == () else f'path {err.path!r}'
    if not want:
        return f'accepted as {got!r}'
    if type(got) is not type(v) or got != v and v == v:
        return f'changed {v!r} to {got!r}'
