"""Config files: finding, loading, merging and writing them."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile

import marsh
import yaml
from marsh import config as mc
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C22', modules=['config'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling', 'types'],
         contracts=['has_ext', 'strip_ext', 'get_ext', 'supported', 'find_config', 'load', 'drop_meta', 'resolve', 'merge', '_merge', 'standardize', 'select_config', 'json_dump', 'json_load', 'json_dumps', 'json_loads', 'yaml_dump', 'yaml_load', 'yaml_dumps', 'yaml_loads'],
         rule='random scratch directories of config files, random lists of names and root directories; random elements that are dumped, written and loaded again; config formats that are registered later',
         limits=['interpolations only of plain values at the top of a config', 'elements have text keys', 'POSIX paths'])
P.replay_ns = NS
META = mc.meta_key


@contextlib.contextmanager
def scratch():
    """an empty directory that the process works in"""
    old, d = os.getcwd(), tempfile.mkdtemp(prefix='vc22-')
    os.chdir(d)
    try:
        yield os.path.realpath(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def scal(rng):
    return rng.choice([None, True, False, 0, 1, -7, 10 ** 20, 0.5, 1e300, -0.25, '', 'a', 'x y', '1', 'true', 'null', 'on', '1.5', '2020-01-01', 'é', "it's", '"', 'a: b', '- x', '#', '~', '\\', 'multi\nline', ' lead', '0x1f', '1e3', '=', '<<'])


def elem(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < .35:
        return scal(rng)
    n = rng.choice([0, 1, 1, 2, 3])
    if r < .72:
        return {rng.choice(['a', 'b', 'c', 'd', '1', 'x y', 'true', 'null', '', META, '~', 'é']): elem(rng, depth - 1) for _ in range(n)}
    xs = [elem(rng, depth - 1) for _ in range(n)]
    return tuple(xs) if r < .8 else xs


NAMES = ['a', 'b', 'c', 'A', 'a-b', '.hid', 'x y']
EXTS = ['.json', '.yaml', '.yml', '.JSON', '.Yml', '.txt', '']
DIRS = ['', 'sub', 'sub/deep', 'a']


def _files(rng):
    files = {}
    for _ in range(rng.randint(1, 5)):
        again = rng.choice(list(files))[:2] if files and rng.random() < .15 else (rng.choice(DIRS), rng.choice(NAMES))
        e = elem(rng, 2) if rng.random() < .3 else {k: elem(rng, 2) for k in rng.sample(['a', 'b', 'c', META], rng.randint(0, 4))}
        if isinstance(e, dict) and rng.random() < .3:
            e['ref'] = '${%s}' % rng.choice('abc')
        files[again + (rng.choice(EXTS[:5] if rng.random() < .9 else EXTS),)] = e
    keys = list(files)
    names = []
    for _ in range(rng.randint(1, 3)):
        d, n, x = rng.choice(keys) if rng.random() < .9 else (rng.choice(DIRS), rng.choice(NAMES), rng.choice(EXTS))
        names.append((d, n, x if rng.random() < .35 else '', rng.choice(['rel', 'rel', 'rel', 'abs', './'])))
    return list(files.items()), names, rng.choice([None, None, '', 'sub', 'sub', 'gone', 'ABS']), rng.random() < .7, rng.random() < .3, rng.random() < .5


def listed(v):
    if isinstance(v, dict):
        return {k: listed(x) for k, x in v.items()}
    return [listed(x) for x in v] if isinstance(v, (list, tuple)) else v


class Bad(Exception):
    pass


def ref_merge(a, b, cat):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: ref_merge(a[k], b[k], cat) if k in a and k in b else b.get(k, a.get(k)) for k in [*a, *(x for x in b if x not in a)]}
    if cat and isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


def plain(v):
    return v is None or isinstance(v, (bool, int, float)) or isinstance(v, str) and '$' not in v


def ref_resolve(v):
    """interpolations of plain entries of the top level"""
    if not isinstance(v, dict):
        if '${' in json.dumps(v):
            raise Skip
        return v
    rest = {k: x for k, x in v.items() if k != 'ref'}
    if '${' in json.dumps(rest):
        raise Skip
    if isinstance(v.get('ref'), str) and v['ref'].startswith('${'):
        k = v['ref'][2:-1]
        if k not in v:
            raise Bad
        if not plain(v[k]):
            raise Skip
        return {q: (v[k] if q == 'ref' else x) for q, x in v.items()}
    if '${' in json.dumps(v):
        raise Skip
    return v


def wanted(files, names, root, top, cat, keep, resolve):
    out, first = None, True
    for d, n, x, how in names:
        path = os.path.join(*([top] if how == 'abs' else []), d, n + x)
        if how == './':
            path = './' + path
        if root and not path.startswith('/'):
            path = (top + '/sub' if root == 'ABS' else root) + '/' + path
        full = os.path.normpath(os.path.join(top, path))
        if os.path.splitext(full)[1]:
            if not os.path.isfile(full):
                raise Bad
        else:
            parent = os.path.dirname(full)
            if not os.path.isdir(os.path.dirname(os.path.join(top, path))):
                raise Bad
            hits = [f for f in os.listdir(parent) if os.path.splitext(f)[0] == os.path.basename(path) and os.path.splitext(f)[1].lower() in ('.json', '.yaml', '.yml')
                    and os.path.isfile(os.path.join(parent, f))]
            if len(hits) != 1:
                raise Bad
            full = os.path.join(parent, hits[0])
        if os.path.splitext(full)[1].lower() not in ('.json', '.yaml', '.yml'):
            raise Bad
        e = next(v for (a, b, c), v in files if os.path.join(top, a, b + c) == full)
        e = listed(e)
        out, first = (e if first else ref_merge(out, e, cat)), False
    if resolve:
        out = ref_resolve(out)
    if not keep and isinstance(out, dict):
        out = {k: v for k, v in out.items() if k != META}
    return out


def put(files, top):
    for (d, n, x), e in files:
        os.makedirs(os.path.join(top, d), exist_ok=True)
        with open(os.path.join(top, d, n + x), 'w') as fp:
            fp.write(json.dumps(listed(e)) if x.lower() == '.json' else yaml.safe_dump(listed(e)))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a) or set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


@P.oracle(gen=_files, n=1000)
def loading(files, names, root, resolve, keep, cat):
    """load finds the one file of every name, merges in order, resolves, drops the meta data"""
    with scratch() as top:
        try:
            put(files, top)
        except OSError:
            raise Skip
        if any(os.path.isdir(os.path.join(top, a, b + c)) for (a, b, c), _ in files):
            raise Skip
        try:
            want = wanted(files, names, root, top, cat, keep, resolve)
        except Bad:
            want = Bad
        args = [(os.path.join(top, d, n + x) if how == 'abs' else './' * (how == './') + os.path.join(d, n + x)) for d, n, x, how in names]
        before = sorted(os.walk(top))
        try:
            got = marsh.config.load(*args, root=top + '/sub' if root == 'ABS' else root, resolve=resolve, keep_meta=keep, concatenate=cat)
        except Skip:
            raise
        except Exception as err:
            got = err
        if sorted(os.walk(top)) != before or os.getcwd() != top:
            return 'the directory was changed'
        if want is Bad:
            return None if isinstance(got, Exception) else f'{args} in {root!r} gave {got!r}, wanted an error'
        if isinstance(got, Exception):
            return f'{args} in {root!r} failed with {type(got).__name__}: {got}, wanted {want!r}'
        if not same(got, want):
            return f'{args} in {root!r} gave {got!r}, wanted {want!r}'


def _round(rng):
    return elem(rng), rng.choice(['x.json', 'x.yaml', 'x.yml', 'X.YAML', 'sub.d/x.JSON', '-']), rng.choice(['dump', 'dumps', 'write'])


@P.oracle(gen=_round, n=2500)
def written(x, path, how):
    """what is dumped or written loads again as the same element"""
    with scratch() as top:
        os.mkdir('sub.d')
        try:
            if how == 'write' and path == '-':
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    marsh.config.write(x)
                got = yaml.load(buf.getvalue(), Loader=yaml.SafeLoader)
            elif path == '-':
                raise Skip
            elif how == 'write':
                marsh.config.write(x, path)
                got = marsh.config.load(path, resolve=False, keep_meta=True)
            elif how == 'dump':
                mc.ConfigSchema(path).dump(x)
                got = mc.ConfigSchema(path).load()
            else:
                s = mc.ConfigSchema(path)
                got = s.loads(s.dumps(x))
        except Skip:
            raise
        except Exception as err:
            return f'{type(err).__name__}: {err}'
        if not same(got, listed(x)):
            return f'gave {got!r}'


def _later(rng):
    return [rng.choice(['find', 'support', 'load', 'direct', 'register', 'registerjson']) for _ in range(rng.randint(2, 6))]


@P.oracle(gen=_later, n=150)
def registered_later(ops):
    """a config format takes effect from its registration on"""
    reg = mc.ConfigSchema.registry
    mine = []
    with scratch() as top:
        for f in ('p.lines', 'q.json'):
            with open(f, 'w') as fp:
                fp.write('[1, 2]')
        try:
            for op in ops:
                if op in ('register', 'registerjson'):
                    class Lines(mc.ConfigSchema):
                        ext = '.lines' if op == 'register' else '.json'
                        tag = len(mine)

                        @classmethod
                        def match(cls, value):
                            return value.endswith(cls.ext)

                        def loads(self, text):
                            return [self.tag, text]
                    reg.register(Lines)
                    mine.append(Lines)
                    continue
                for name in ('p', 'q'):
                    file = {'p': 'p.lines', 'q': 'q.json'}[name]
                    last = [c for c in mine if file.endswith(c.ext)]
                    want = [last[-1].tag, '[1, 2]'] if last else [1, 2] if name == 'q' else None
                    if op == 'support':
                        if mc.config_type_is_supported(file) != (want is not None):
                            return f'{file} supported: {want is None}'
                        continue
                    try:
                        if op == 'find':
                            got = mc.find_config(name) == './' + file or mc.find_config(name) == file
                        elif op == 'load':
                            got = marsh.config.load(name)
                        else:
                            got = mc.ConfigSchema(file).load()
                    except Exception as err:
                        got = err
                    if op == 'find':
                        want = True if want is not None else None
                    if want is None and not isinstance(got, Exception) or want is not None and got != want:
                        return f'{op} of {file} gave {got!r}, wanted {want!r}'
        finally:
            for c in mine:
                for w in list(reg.priority._values):
                    if w.value is c:
                        reg.priority._values.remove(w)
            for f in ('cache_clear',):
                getattr(reg.match, f, lambda: None)()
