"""The entry point: command line to function call."""
import contextlib
import dataclasses
import io
import json
import os
import sys
from typing import *  # noqa

import marsh
from marsh.entry_point import EntryPoint
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from .C03 import ref_override
from .C04 import ref_remove
from .C22 import scratch, listed, same as alike

P = Prop('C25', modules=['config'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling', 'types'],
         contracts=['set_value', 'del_value', 'set_config', 'load_config', 'entry', 'drop_meta', 'override', 'remove', 'load'],
         rule='random command lines (sets, combinations, config files, removals; output directory, config directory and written config) for functions and config types, called with and without arguments, that return, raise or change the directory',
         limits=['argparse, the help texts and logging are trusted', 'interpolations of whole values only (bounded part)', 'one process, POSIX'])
P.replay_ns = NS


class Boom(Exception):
    pass


@dataclasses.dataclass
class Conf:
    a: int = 1
    b: str = 'x'
    c: List[int] = dataclasses.field(default_factory=list)
    d: Dict[str, Any] = dataclasses.field(default_factory=dict)


def f0(a: int, b: str = 'x', c: Sequence[int] = (), d: Mapping[str, Any] = {}):  # noqa
    ...


def f1(a: Any = None, *rest: Any):
    ...


def f2(**kw: Any):
    ...


def f3(d: Conf, b: str = 'y'):
    ...


FNS = [f0, f1, f2, f3]
FIELDS = ['a', 'b', 'c', 'd', 'd.x', 'd.x.y', 'c.0', 'c.1', 'c.-1', 'd.a', 'd.c', 'zz', '', '_meta_', 'd.x y', '0', '1']
VALUES = [1, 5, 'x', 'y z', True, None, [], [1], [1, 2], {}, {'x': 1}, {'x': {'y': [2]}}, '', 0.5, {'_meta_': 1, 'a': 2}, '007']


def quote(v):
    if isinstance(v, dict):
        return '{' + ', '.join(f'{quote(k)}: {quote(x)}' for k, x in v.items()) + '}'
    if isinstance(v, list):
        return '[' + ', '.join(map(quote, v)) + ']'
    if isinstance(v, str):
        return "'" + v.replace('\\', '\\\\').replace("'", "\\'") + "'"
    return json.dumps(v)


def _cli(rng):
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        p = rng.choice(FIELDS[:9]) if rng.random() < .8 else rng.choice(FIELDS)
        r = rng.random()
        if r < .62:
            ops.append(('set', p, rng.choice(VALUES), rng.random() < .3))
        elif r < .85:
            ops.append(('cfg', rng.choice(['', '', '', p]), rng.sample(['one', 'two', 'one.json', 'sub/two', 'lst', 'gone'], rng.choice([1, 1, 2])), rng.random() < .3))
        else:
            ops.append(('del', p))
    files = {n: {k: rng.choice(VALUES) for k in rng.sample(['a', 'b', 'c', 'd', '_meta_'], rng.randint(0, 4))} for n in ('one.json', 'two.json', 'sub/two.json', 'cfgs/one.json', 'cfgs/lst.json')}
    files['lst.json'] = [rng.choice(VALUES) for _ in range(rng.randint(0, 2))]
    call = rng.choice([((), {}), ((), {}), ((), {}), ((), {'a': 7}), ((3,), {}), ((3, 'p'), {}), ((), {'b': 'q', 'zz': 1})])
    return (rng.randint(0, 3), rng.random() < .3, ops, list(files.items()), rng.choice([None, None, 'cfgs', '.', 'ABS']), rng.choice([None, None, None, 'out', 'out/%Y', 'ABS', 'one.json', 'sub', 'cfgs/new', '.']), rng.choice([None, None, '-', 'w.json', 'w.yaml', 'no/w.json', 'w.txt']),
            call, rng.choice(['return', 'return', 'raise', 'chdir', 'exit']))


def ref_config(ops, files, root, top):
    """(ok, config)"""
    files = dict(files)
    x = '???'
    for op, p, *more in ops:
        fs = [f for f in p.split('.') if f]
        if op == 'set':
            ok, x = ref_override(x, listed(more[0]), fs, more[1])
        elif op == 'del':
            if not fs or not isinstance(x, (dict, list, tuple)) or len(trail(x, fs)) <= len(fs):
                return False, None
            ok, x = True, ref_remove(x, fs)
        else:
            first, y = True, None
            for n in more[0]:
                path = os.path.normpath(os.path.join('cfgs' if root == 'ABS' else root or '', n))
                path = path if path.endswith('.json') else path + '.json'
                if path not in files:
                    return False, None
                e = listed(files[path])
                y, first = e if first else ref_merge(y, e), False
            ok, x = ref_override(x, y, fs, more[1])
        if not ok:
            return False, None
    x = listed(x)
    if isinstance(x, dict) and '_meta_' in x:
        x = {k: v for k, v in x.items() if k != '_meta_'}
    return True, x


def ref_merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: ref_merge(a[k], b[k]) if k in a and k in b else b.get(k, a.get(k)) for k in [*a, *(x for x in b if x not in a)]}
    return a + b if isinstance(a, list) and isinstance(b, list) else b


def strict(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(strict, a, b))
    return type(a) is type(b) and a == b


@P.oracle(gen=_cli, n=1200)
def runs(which, conf, ops, files, root, out, cfgout, call, what):
    """the function is called once with what the command line says, in the output directory, or not at all; the working directory is restored"""
    args, kwargs = call
    with scratch() as top:
        for n, e in files:
            os.makedirs(os.path.dirname(n) or '.', exist_ok=True)
            with open(n, 'w') as fp:
                json.dump(e, fp)
        calls = []
        base = FNS[which]

        def fn(*a, **k):
            calls.append((a, k, os.path.realpath(os.getcwd())))
            if what == 'raise':
                raise Boom
            if what == 'exit':
                sys.exit(7)
            if what == 'chdir':
                os.chdir('/')
            return [a, k]
        if conf:
            ep = EntryPoint(fn, config=Conf)
            schema = marsh.schema.UnmarshalSchema(Conf)
        else:
            fn.__signature__ = __import__('inspect').signature(base)
            fn.__annotations__ = base.__annotations__
            schema = marsh.schema.argument.ArgumentsUnmarshalSchema(base)
            ep = EntryPoint(base)
            ep.fn = fn
        ok, x = ref_config(ops, files, root, top)
        wdir = top if out is None else top + '/absout' if out == 'ABS' else os.path.normpath(os.path.join(top, out))
        want = None
        if ok:
            try:
                if conf:
                    want = ((schema.unmarshal(x),), {})
                else:
                    r = schema.unmarshal(x, default_args=args, default_kwargs=kwargs)
                    want = (tuple(r.args), dict(r.kwargs))
            except Exception as err:
                want = None
        direct = conf and (args or kwargs)
        if direct:
            want = call
        elif out == 'one.json' or cfgout in ('no/w.json', 'w.txt'):
            want = None
        argv = ['prog']
        if root is not None:
            argv += ['-c', top + '/cfgs' if root == 'ABS' else root]
        if out is not None:
            argv += ['-o', top + '/absout' if out == 'ABS' else out]
        if cfgout is not None:
            argv += ['--config-out', cfgout]
        argv += ['--']
        for op in ops:
            p = op[1]
            argv.append('~' + p if op[0] == 'del' else p + '+' * op[3] + ('=' + quote(op[2]) if op[0] == 'set' else '@' + ','.join(op[2])))
        old = sys.argv
        sys.argv = argv
        buf = io.StringIO()
        err = res = None
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                res = ep(*args, **kwargs)
        except BaseException as e:
            err = e
        finally:
            sys.argv = old
        there = os.path.realpath(os.getcwd())
        chdir = what == 'chdir' and calls and (out is None or direct)
        if there != ('/' if chdir else top):
            return f'{argv} left the process in {there}'
        if want is None:
            if calls:
                return f'{argv} called the function with {calls}, wanted no call (config {x!r}, {ok})'
            return None if isinstance(err, SystemExit) and err.code == 1 or isinstance(err, Exception) and any(o[0] == 'del' and not o[1] for o in ops) else f'{argv} gave {res!r} and {type(err).__name__} {err} without a call'
        if len(calls) != 1:
            return f'{argv} called the function {len(calls)} times, wanted {want!r}; {err!r} {buf.getvalue()}'
        if not strict(calls[0][0], tuple(want[0])) or not strict(calls[0][1], want[1]):
            return f'{argv} called the function with {calls[0][:2]!r}, wanted {want!r}'
        inside = calls[0][2]
        if direct or out is None:
            if inside != top:
                return f'called in {inside}'
        elif out == 'out/%Y':
            if os.path.dirname(inside) != top + '/out' or not os.path.basename(inside).isdigit():
                return f'called in {inside}'
        elif inside != wdir:
            return f'called in {inside}, wanted {wdir}'
        if what == 'raise' and not isinstance(err, Boom) or what == 'exit' and not (isinstance(err, SystemExit) and err.code == 7):
            return f'the failure of the function became {err!r}'
        if what in ('return', 'chdir') and (err is not None or res != [calls[0][0], calls[0][1]]):
            return f'gave {res!r}, {err!r}'
        if not direct and cfgout == '-':
            import yaml
            if not strict(yaml.safe_load(buf.getvalue()), x):
                return f'printed {buf.getvalue()!r} for {x!r}'
        elif not direct and cfgout:
            got = marsh.config.load(os.path.join(inside, cfgout), resolve=False, keep_meta=True)
            if not strict(got, x):
                return f'wrote {got!r} for {x!r}'


def _ginter(rng):
    vals = {n: rng.choice([1, 'x', True, None, 2.5, [1, 2], {'y': 3}, 'a b']) for n in ('p', 'q')}
    meta = {n: rng.choice([7, 'm', [3], {'z': 1}, None]) for n in ('m', 'n')}
    refs = {n: rng.choice(['p', 'q', '_meta_.m', '_meta_.n', 'gone']) for n in ('r', 's')}
    if rng.random() < .7:
        refs = {n: r for n, r in refs.items() if r != 'gone'}
    return vals, meta, refs, [rng.random() for _ in range(8)]


@P.oracle(gen=_ginter, n=400)
def interpolations(vals, meta, refs, order):
    """references in the config are resolved against the whole config, the meta data included, before that is dropped"""
    parts = [f'{n}={quote(v)}' for n, v in vals.items()] + [f'_meta_.{n}={quote(v)}' for n, v in meta.items()] + ['%s=${%s}' % r for r in refs.items()]
    parts = [p for _, p in sorted(zip(order, parts))]
    every = {**vals, **{'_meta_.' + n: v for n, v in meta.items()}}
    calls = []

    def fn(**kw):
        calls.append(kw)
    fn.__annotations__ = {'kw': Any}
    old, err, buf = sys.argv, None, io.StringIO()
    sys.argv = ['prog', '--', *parts]
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            EntryPoint(fn)()
    except SystemExit as e:
        err = e
    except Exception as e:      # an error of omegaconf
        err = e
    finally:
        sys.argv = old
    if 'gone' in refs.values():
        return f'{parts}: called with {calls}' if calls or err is None else None
    want = {**vals, **{n: every[r] for n, r in refs.items()}}
    if err is not None or len(calls) != 1 or not strict(calls[0], want):
        return f'{parts}: called with {calls}, wanted {want}; {err!r}'
