"""Forward symbolic executor over the abstract syntax of the repository's real
source.  Produces verification conditions; see DESIGN.md for the semantics."""
from __future__ import annotations

import ast
from collections.abc import Hashable
import builtins
import contextlib
import dataclasses
import functools
import inspect
import itertools
import types

import z3

from . import logic as L
from .logic import *  # noqa
from .lib import *  # noqa
from .values import *  # noqa
from .values import St, K, S, T, R, O, Clo, BM, BMeth, Sup, Model, It, ExcV, Ret, BRK, CONT
from .lib import sapp as app, slapp as lapp  # noqa

import os
REPO = os.environ.get('VERIF_REPO', '/repo')

# ------------------------------------------------------------ sources
_files = {}
_nodes = {}


def _parse(path):
    if path not in _files:
        with open(path) as fp:
            src = fp.read()
        tree = ast.parse(src)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                index[(n.name, line)] = n
            elif isinstance(n, ast.Lambda):
                index.setdefault(('<lambda>', n.lineno), n)
        _files[path] = (src, tree, index)
    return _files[path]


def source_node(fn):
    """AST of the real function object, from the file it was loaded from."""
    code = fn.__code__
    key = (code.co_filename, code.co_name, code.co_firstlineno)
    if key not in _nodes:
        _, _, index = _parse(code.co_filename)
        n = index.get((code.co_name, code.co_firstlineno))
        if n is None:
            raise Unsupported(f'no source found for {fn!r}')
        _nodes[key] = n
    return _nodes[key]


def in_repo(fn):
    try:
        return fn.__code__.co_filename.startswith(REPO + '/')
    except AttributeError:
        return False


def is_cm(fn):
    """Is fn produced by contextlib.contextmanager from repository code?"""
    w = getattr(fn, '__wrapped__', None)
    return (
        isinstance(fn, types.FunctionType) and w is not None
        and fn.__code__.co_filename == contextlib.__file__
    )


def _is_gen(node):
    """Does the function body contain a yield of its own?"""
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(nodes):
    out = set()
    st = list(nodes)
    while st:
        n = st.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets are local to it; walrus inside is not used
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        st.extend(ast.iter_child_nodes(n))
    return out


class Fr:
    _ids = itertools.count()

    def __init__(self, name, globals_, node, parent=None, owner=None, depth=0):
        self.fid = next(Fr._ids)
        self.name, self.globals, self.node, self.parent, self.owner, self.depth = name, globals_, node, parent, owner, depth
        self.yloc = None
        self.handler = None
        self.nonlocals = set()
        self._locals = None

    def local_names(self):
        """names the function assigns (an unbound one is not looked up outside)"""
        if self._locals is None:
            n = self.node
            self._locals = set()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._locals = set(assigned_names(n.body))
                for s in ast.walk(n):
                    if isinstance(s, (ast.Nonlocal, ast.Global)):
                        self._locals -= set(s.names)
        return self._locals


class StarArg(SV):
    __slots__ = ('v', 'double')

    def __init__(self, v, double=False):
        self.v, self.double = v, double


def _peel(args):
    """the items of a star argument that are known are arguments of their own"""
    if not any(isinstance(a, StarArg) and isinstance(a.v, S) and a.v.sort == 'val' and isz(a.v.t) and z3.is_app(a.v.t) and a.v.t.decl().name() == 'VSeq' for a in args):
        return args
    out = []
    for a in args:
        if isinstance(a, StarArg) and isinstance(a.v, S) and a.v.sort == 'val' and isz(a.v.t) and z3.is_app(a.v.t) and a.v.t.decl().name() == 'VSeq':
            items = ofQ(a.v.t)
            while isz(items) and z3.is_app(items) and items.decl().name() == 'lcons':
                out.append(S('val', items.arg(0)))
                items = items.arg(1)
            if empty(items) is True:
                continue
            out.append(StarArg(S('val', vseq(TUPLE, items))))
        else:
            out.append(a)
    return out


@dataclasses.dataclass
class Oblig:
    name: str
    hyps: list
    goal: object
    lemmas: tuple
    where: str = ''
    result: object = None


class LoopView:
    """What a loop invariant may talk about."""

    def __init__(self, eng, st, fr, all_, rest, done, idx, acc, init, args, entry):
        self._e, self._st, self._fr = eng, st, fr
        self.all, self.rest, self.done, self.idx = all_, rest, done, idx
        self._acc, self.init, self.a = acc, init, args
        self.conds = []
        self.entry = entry if entry is not None else self      # LoopView at loop entry
        self.at_entry = entry is None
        self.outer = st.outer if entry is None else entry.outer     # element (key, value) of the enclosing loop

    def _get(self, name, sort=None):
        """the value of a local variable; one that was renamed is found when a
        single other local has the kind that the contract asks for"""
        try:
            return self._e.lookup(self._st, self._fr, self._e.role(name), plain=True)
        except Unsupported:
            if sort is None or name in self._e.rolemap:
                raise RoleMissing(name)
        if self._acc is not None and sort in ('lv', 'le') and isinstance(self._st.heap[self._acc.loc], ListCell if sort == 'lv' else DictCell):
            return self._acc
        n = self._fr.node
        params = set()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            params = {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        used = set(self._e.rolemap.values())
        src = self.entry
        cand = [k for k, v in src._st.frames.get(self._fr.fid, {}).items() if k not in params and k not in used and v is not None and src._is(v, sort)]
        if len(cand) != 1:
            raise RoleMissing(name)
        self._e.rolemap[name] = cand[0]
        return self._e.lookup(self._st, self._fr, cand[0], plain=True)

    def _is(self, v, sort):
        if isinstance(v, R):
            return isinstance(self._st.heap[v.loc], {'lv': ListCell, 'le': DictCell}.get(sort, ()))
        if isinstance(v, T):
            return sort == 'lv'
        try:
            cs, _ = self._e.coerce(self._st, v, sort)
        except Unsupported:
            return False
        return sort != 'val' and not any(c is False for c in cs)

    def _co(self, v, sort):
        cs, t = self._e.coerce(self._st, v, sort)
        self.conds.extend(cs)
        return t

    def str(self, n): return self._co(self._get(n, 'str'), 'str')
    def bool(self, n): return self._co(self._get(n, 'bool'), 'bool')
    def int(self, n): return self._co(self._get(n, 'int'), 'int')
    def val(self, n): return self._co(self._get(n, 'val'), 'val')
    def list(self, n): return self._co(self._get(n, 'lv'), 'lv')
    def dict(self, n): return self._co(self._get(n, 'le'), 'le')

    def has(self, n):
        try:
            self._get(n)
            return True
        except RoleMissing:
            return False

    @property
    def acc(self):
        c = self._st.heap[self._acc.loc]
        return c.term

    @property
    def yields(self):
        f = self._fr
        while f is not None and f.yloc is None:
            f = f.parent
        return self._st.heap[f.yloc].term

    def field(self, objname, field, sort):
        r = self._get(objname)
        return self._co(self._st.heap[r.loc].fields[field], sort)


class RoleMissing(Exception):
    pass


class Loop:
    """Contract of one loop: inv(view) -> list of Bools over the view; havoc:
    variable -> sort overriding the type derived at loop entry."""

    def __init__(self, inv, havoc=None, name='', roles=None, cut=False):
        self.inv, self.havoc, self.name = inv, havoc or {}, name
        self.cut = cut      # nothing but the precondition and the invariant is known inside and after the loop


EXTRA_MODELS = []        # functions(engine) that add models (registered by contract modules)


# ------------------------------------------------------------- engine
class Engine:
    MAXDEPTH = 40

    def __init__(self, prover, contracts, trusted_models=None):
        self.p = prover
        self.contracts = contracts          # function object -> Contract
        self.obligs = []
        self.cuts, self.keep, self.start = set(), [], None
        self.loops = []
        self.loopmap = {}
        self.msgnodes = set()
        self.cur = None
        self.cur_args = None
        from . import lib
        self.const_objs = lib._const_objs
        self.used_contracts = {}
        self.inlined = set()
        self.rolemap = {}
        self.on_yield = None        # f(engine, state, frame): what may happen while a generator is suspended
        self.check_hash = False     # dictionary operations raise TypeError for unhashable keys
        self.models = {}
        self.attr_models = {}
        self.val_attrs = {}         # attribute -> model, for values that are instances of a known NamedTuple
        self.meth_models = {}
        self.call_models = {}
        self._loc = itertools.count(1)
        self.quiet = 0
        self.assumptions = set()
        from . import builtin_models
        builtin_models.install(self)
        for f in EXTRA_MODELS:
            f(self)

    # ---------------------------------------------------- basic helpers
    def role(self, name):
        return self.rolemap.get(name, name)

    def const_id(self, obj):
        from . import lib
        return lib.const_of(obj)

    def alloc(self, st, cell):
        loc = next(self._loc)
        st.heap[loc] = cell
        return R(loc)

    def new_list(self, st, term, kind='list'):
        return self.alloc(st, ListCell(term, kind))

    def new_dict(self, st, term, kind='dict'):
        return self.alloc(st, DictCell(term, kind))

    def set_cell(self, st, loc, cell):
        st.heap[loc] = cell
        st.muts.add(loc)

    def mutate(self, st, ref, term, node=None):
        c = st.heap[ref.loc]
        if c.frozen:
            raise Unsupported('mutation of a container that has been stored elsewhere (aliasing)', node)
        self.set_cell(st, ref.loc, c.with_(term=term))

    def freeze(self, st, ref):
        c = st.heap[ref.loc]
        if isinstance(c, (ListCell, DictCell)) and not c.frozen:
            st.heap[ref.loc] = c.with_(frozen=True)

    def feasible(self, st, extra=()):
        for c in st.pc:
            if isz(c) and z3.is_false(c):
                return False
        return self.p.feasible(list(st.pc) + list(extra), self.cur_lemmas if self.cur.prune else ())

    def fork(self, st, cond):
        """[(state, bool)] for the two truth values of cond."""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        t = st.fork().assume(cond)
        if self.feasible(t):
            out.append((t, True))
            f = st.fork().assume(z3.Not(cond))
            if self.feasible(f):
                out.append((f, False))
        else:
            out.append((st.fork().assume(z3.Not(cond)), False))
        return out

    def oblige(self, name, st, goal, node=None, extra=()):
        if self.quiet:
            return
        where = f'line {node.lineno}' if node is not None and hasattr(node, 'lineno') else ''
        self.obligs.append(Oblig(name, list(st.pc) + list(extra), goal, tuple(self.cur_lemmas), where))

    # ---------------------------------------------------- conversions
    def to_val(self, st, v, freeze=True):
        """Val term of an engine value."""
        if isinstance(v, S):
            if v.sort == 'val':
                return v.t
            return {'bool': vbool, 'int': vint, 'str': vstr, 'float': vfloat, 'bytes': vbytes}[v.sort](v.t)
        if isinstance(v, K):
            o = v.obj
            if o is None:
                return VNone
            if o is True or o is False:
                return ('B', o)
            if type(o) is int:
                return ('I', o)
            if type(o) is float:
                return ('F', o)
            if type(o) is str:
                return ('S', L.S(o))
            if type(o) is bytes:
                return ('Y', tuple(o))
            if type(o) is tuple:
                return vseq(TUPLE, self._lv(st, [K(x) for x in o]))
            if type(o) is list:
                return vseq(LIST, self._lv(st, [K(x) for x in o]))
            if type(o) is dict and not o:
                return vmap(DICT, ())
            return ('C', self.const_id(o))
        if isinstance(v, T):
            return vseq(TUPLE, self._lv(st, v.items))
        if isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, ListCell):
                if freeze:
                    self.freeze(st, v)
                return vseq(LIST if c.kind == 'list' else SEQO, c.term)
            if isinstance(c, DictCell):
                if freeze:
                    self.freeze(st, v)
                return vmap(DICT if c.kind == 'dict' else MAPO, c.term)
            if isinstance(c, ObjCell):
                return ('C', -v.loc)
        if isinstance(v, O):
            return v.t
        if isinstance(v, (Clo, BM, Model)):
            return ('C', self.const_id(v))
        raise Unsupported(f'no value representation for {v!r}')

    def _lv(self, st, items):
        t = ()
        for x in reversed(items):
            t = lcons(self.to_val(st, x), t)
        return t

    def norm(self, v):
        """Normalise a symbolic value whose constructor is syntactically known."""
        if isinstance(v, S) and v.sort == 'val':
            t = v.t
            if isinstance(t, tuple):
                tag = t[0]
                if tag == 'N':
                    return K(None)
                if tag in 'BIF' and not isz(t[1]):
                    return K(t[1])
                if tag == 'S':
                    return self.norm(S('str', t[1]))
                if tag in 'BI':
                    return S({'B': 'bool', 'I': 'int'}[tag], t[1])
                if tag == 'C' and t[1] in self.const_objs:
                    o = self.const_objs[t[1]]
                    return o if isinstance(o, SV) else K(o)
                return v
            if z3.is_app(t):
                n = t.decl().name()
                if n == 'VNone':
                    return K(None)
                if n == 'VStr':
                    return self.norm(S('str', t.arg(0)))
                if n == 'VInt':
                    return self.norm(S('int', t.arg(0)))
                if n == 'VBool':
                    return self.norm(S('bool', t.arg(0)))
                if n == 'VConst' and z3.is_int_value(t.arg(0)):
                    o = self.const_objs.get(t.arg(0).as_long())
                    if o is not None:
                        return o if isinstance(o, SV) else K(o)
        if isinstance(v, S):
            if v.sort == 'str' and not isz(v.t) and all(isinstance(c, int) for c in v.t):
                return K(L.unS(v.t))
            if v.sort in ('bool', 'int') and not isz(v.t):
                return K(v.t)
            if v.sort == 'int' and z3.is_int_value(v.t):
                return K(v.t.as_long())
            if v.sort == 'bool' and (z3.is_true(v.t) or z3.is_false(v.t)):
                return K(z3.is_true(v.t))
            if v.sort == 'str' and isz(v.t):
                cs, t = [], v.t
                while z3.is_app(t) and t.decl().name() == 'scons' and z3.is_int_value(t.arg(0)):
                    cs.append(t.arg(0).as_long())
                    t = t.arg(1)
                if z3.is_app(t) and t.decl().name() == 'snil':
                    return K(L.unS(cs))
        return v

    def coerce(self, st, v, sort):
        """(conditions, term) viewing v at the given sort."""
        v = self.norm(v)
        if sort == 'any':
            return [], v
        if sort == 'le' and isinstance(v, PyDict):
            t = ()
            for n, x in v.items.items():
                t = eset(t, vstr(L.S(n)), self.to_val(st, x))
            return [], t
        if sort == 'val':
            return [], self.to_val(st, v)
        if sort == 'str':
            if isinstance(v, K):
                if type(v.obj) is str:
                    return [], L.S(v.obj)
                return [False], ()
            if isinstance(v, S):
                if v.sort == 'str':
                    return [], v.t
                if v.sort == 'val':
                    return [isS(v.t)], ofS(v.t)
            return [False], ()
        if sort == 'bool':
            if isinstance(v, K) and isinstance(v.obj, bool):
                return [], v.obj
            if isinstance(v, S) and v.sort == 'bool':
                return [], v.t
            if isinstance(v, S) and v.sort == 'val':
                return [isB(v.t)], ofB(v.t)
            return [False], False
        if sort == 'int':
            if isinstance(v, K) and type(v.obj) is int:
                return [], v.obj
            if isinstance(v, S) and v.sort == 'int':
                return [], v.t
            if isinstance(v, S) and v.sort == 'val':
                return [isI(v.t)], ofI(v.t)
            return [False], 0
        if sort == 'float':
            if isinstance(v, K) and type(v.obj) is float:
                return [], v.obj
            if isinstance(v, S) and v.sort == 'float':
                return [], v.t
            if isinstance(v, S) and v.sort == 'val':
                return [isF(v.t)], ofF(v.t)
            return [False], 0.0
        if sort == 'iter':
            if isinstance(v, R) and isinstance(st.heap[v.loc], ListCell) and st.heap[v.loc].kind == 'iter':
                return [], st.heap[v.loc].term
            return [False], ()
        if sort == 'lv':        # content of a sequence (list, tuple, iterable)
            if isinstance(v, R):
                c = st.heap[v.loc]
                if isinstance(c, ListCell):
                    return [], c.term
            if isinstance(v, T):
                return [], self._lv(st, v.items)
            if isinstance(v, K) and isinstance(v.obj, (tuple, list)):
                return [], self._lv(st, [K(x) for x in v.obj])
            if isinstance(v, It) and v.tail is None:
                t = self.it_term(v)
                if t is not None:
                    return [], t
            if isinstance(v, S) and v.sort == 'val':
                return [isQ(v.t)], ofQ(v.t)
            return [False], ()
        if sort == 'le':
            if isinstance(v, R):
                c = st.heap[v.loc]
                if isinstance(c, DictCell):
                    return [], c.term
            if isinstance(v, K) and isinstance(v.obj, dict) and not v.obj:
                return [], ()
            if isinstance(v, S) and v.sort == 'val':
                return [isM(v.t)], ofM(v.t)
            return [False], ()
        if sort == 'none':
            if isinstance(v, K) and v.obj is None:
                return [], ()
            if isinstance(v, S) and v.sort == 'val':
                return [isN(v.t)], ()
            return [False], ()
        if sort == 'tuplelv':
            if isinstance(v, T) or isinstance(v, K) and isinstance(v.obj, tuple):
                return self.coerce(st, v, 'lv')
            if isinstance(v, S) and v.sort == 'val':
                return [isQ(v.t), Eq(kindQ(v.t), TUPLE)], ofQ(v.t)
            return [False], ()
        if sort == 'gen':
            if isinstance(v, It):
                t = self.it_term(v)
                if t is not None:
                    return [], t
            return [False], ()
        if isinstance(sort, tuple) and sort[0] == 'tuple':
            if isinstance(v, T) and len(v.items) == len(sort) - 1:
                cs, ts = [], []
                for x, s in zip(v.items, sort[1:]):
                    c, t = self.coerce(st, x, s)
                    cs += c
                    ts.append(t)
                return cs, tuple(ts)
            if isinstance(v, S) and v.sort == 'val':
                raise Unsupported('tuple expected')
            return [False], None
        if isinstance(sort, tuple) and sort[0] == 'obj':
            return [], v
        if type(sort).__name__ == 'Opq':
            if isinstance(v, O) and (v.cls == sort.cls or isinstance(v.cls, type) and isinstance(sort.cls, type) and issubclass(v.cls, sort.cls)):
                return [], v.t
            return [False], VNone
        if type(sort).__name__ == 'Obj':
            tv = Args()
            if not isinstance(v, R) or not isinstance(st.heap[v.loc], ObjCell) or not issubclass(st.heap[v.loc].cls, sort.cls):
                return [False], tv
            cs = []
            for n, s in sort.fields.items():
                if n not in st.heap[v.loc].fields:
                    return [False], tv
                c, t = self.coerce(st, st.heap[v.loc].fields[n], s)
                cs += c
                setattr(tv, n, t)
            tv._ref = v
            return cs, tv
        raise Unsupported(f'unknown sort {sort}')

    def wrap(self, st, t, sort):
        if sort == 'any':
            return t
        if sort in ('str', 'bool', 'int', 'val', 'float'):
            return self.norm(S(sort, t))
        if sort == 'lv':
            return self.new_list(st, t)
        if sort == 'tuplelv':
            return S('val', vseq(TUPLE, t))
        if sort == 'le':
            return self.new_dict(st, t)
        if sort == 'none':
            return K(None)
        if sort == 'gen':
            return It('lv', t, plain='id')
        if isinstance(sort, tuple) and sort[0] == 'tuple':
            return T([self.wrap(st, x, s) for x, s in zip(t, sort[1:])])
        raise Unsupported(f'cannot wrap {sort}')

    def fresh_of(self, sort, name='r'):
        m = {'str': Str, 'bool': Bool, 'int': Int, 'val': Val, 'float': Fl, 'lv': LV, 'le': LE, 'gen': LV, 'tuplelv': LV}
        if sort == 'none':
            return ()
        if isinstance(sort, tuple) and sort[0] == 'tuple':
            return tuple(self.fresh_of(s, name) for s in sort[1:])
        return fresh(m[sort], name)

    def it_term(self, it):
        """LV term for an iterable with structural view."""
        if it.dom == 'lv' and it.plain == 'id':
            return it.term
        if it.dom == 'le' and it.plain == 'keys':
            return ekeys(it.term)
        if it.dom == 'le' and it.plain == 'values':
            return evals(it.term)
        if it.dom == 'le' and it.plain == 'items':
            return eitems(it.term)
        if it.dom == 'str' and it.plain == 'chars':
            return chars(it.term)
        return None

    # ---------------------------------------------------- truth, equality
    def truth(self, st, v):
        """Bool term / python bool for the truthiness of v."""
        v = self.norm(v)
        if isinstance(v, K):
            return bool(v.obj)
        if isinstance(v, S):
            if v.sort == 'bool':
                return v.t
            if v.sort == 'int':
                return Ne(v.t, 0)
            if v.sort == 'str':
                return Not(empty(v.t))
            if v.sort == 'val':
                return truthy(v.t)
            if v.sort == 'bytes':
                return Not(empty(v.t))
        if isinstance(v, (T, PyDict)):
            return len(v.items) > 0
        if isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, (ListCell, DictCell)):
                return Not(empty(c.term))
            if isinstance(c, PyListCell):
                return len(c.items) > 0
            if isinstance(c, ObjCell):
                for k in c.cls.__mro__:
                    if '__bool__' in k.__dict__ or ('__len__' in k.__dict__ and not issubclass(c.cls, BaseException)):
                        raise Unsupported(f'truth of {c.cls}')
                return True
        if isinstance(v, (Clo, BM, Model, BMeth, O)):
            return True
        raise Unsupported(f'truth of {v!r}')

    def equal(self, st, a, b, identity=False):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return (a.obj is b.obj or (identity and type(a.obj) in (str, int, bool) and a.obj == b.obj and type(a.obj) is type(b.obj))) if identity else bool(a.obj == b.obj)
            except Exception:
                raise Unsupported('equality of concrete objects')
        if isinstance(a, R) and isinstance(b, R) and a.loc == b.loc:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, R):
                c = st.heap[x.loc]
                if identity:
                    if isinstance(y, (K, T, S)) and not (isinstance(y, S) and y.sort == 'val'):
                        return False
                    if isinstance(y, R):
                        return False
                if isinstance(c, ListCell) and c.kind == 'list' and isinstance(y, K) and type(y.obj) is list and not y.obj:
                    return empty(c.term)
        if isinstance(a, T) and isinstance(b, T) and not identity:
            if len(a.items) != len(b.items):
                return False
            return And(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)])
        # numbers: python compares bool/int/float by value
        na, nb = self._numeric(a), self._numeric(b)
        if not identity and (na or nb):
            return num_eq(self.to_val(st, a), self.to_val(st, b))
        ta, tb = self.to_val(st, a, freeze=False), self.to_val(st, b, freeze=False)
        if not identity and isinstance(a, S) and a.sort == 'val' and isinstance(b, S) and b.sort == 'val':
            return py_eq(ta, tb)
        return Eq(ta, tb)

    def _numeric(self, v):
        if isinstance(v, K):
            return type(v.obj) in (int, float, bool)
        return isinstance(v, S) and v.sort in ('int', 'bool', 'float')

    # ---------------------------------------------------- exceptions
    def make_exc(self, st, cls, path=None, exact=True, **fields):
        f = dict(fields)
        if path is not None:
            f['path'] = S('str', path)
        elif self._is_marsh(cls):
            f.setdefault('path', K(''))
        return self.alloc(st, ObjCell(cls, f, exact=exact))

    def _is_marsh(self, cls):
        import marsh
        return issubclass(cls, marsh.errors.MarshError)

    def throw(self, st, cls, path=None):
        return (st, ExcV(self.make_exc(st, cls, path)))

    def exc_matches(self, st, ref, classes):
        """[(state, bool)]"""
        c = st.heap[ref.loc]
        may = False
        for h in classes:
            if issubclass(c.cls, h):
                return [(st, True)]
            if c.cls is OtherError:
                import marsh
                if not issubclass(h, marsh.errors.MarshError) and issubclass(h, Exception):
                    may = True
            elif not c.exact and issubclass(h, c.cls):
                may = True
        if may:
            b = fresh(Bool, 'excmatch')
            return [(st.fork().assume(b), True), (st.fork().assume(z3.Not(b)), False)]
        return [(st, False)]

    # ---------------------------------------------------- names
    def lookup(self, st, fr, name, plain=False):
        f = fr
        while f is not None:
            env = st.frames.get(f.fid)
            if env is not None and name in env:
                v = env[name]
                if v is None:
                    raise Unsupported(f'possibly unbound variable {name}')
                return v
            if name in f.local_names() and not plain:
                raise Unsupported(f'possibly unbound variable {name}')
            f = f.parent
        if plain:
            raise Unsupported(f'no local {name}')
        if name in fr.globals:
            return K(fr.globals[name])
        if hasattr(builtins, name):
            return K(getattr(builtins, name))
        raise Unsupported(f'unknown name {name}')

    def store(self, st, fr, name, v):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in st.frames.get(f.fid, {}):
                f = f.parent
        elif getattr(fr, 'transparent', False):
            # comprehension frames etc. keep their own names
            pass
        st.frames[f.fid][name] = v

    # ---------------------------------------------------- expressions
    def ev(self, st, fr, e):
        """iterator of (state, SV | ExcV)"""
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}', e)
        return m(st, fr, e)

    def bind(self, it, k):
        for st, v in it:
            if isinstance(v, ExcV):
                yield st, v
            else:
                yield from k(st, v)

    def ev_list(self, st, fr, es):
        """evaluate left to right: iterator of (state, [SV] | ExcV)"""
        if not es:
            yield st, []
            return
        for st1, v in self.ev(st, fr, es[0]):
            if isinstance(v, ExcV):
                yield st1, v
                continue
            for st2, vs in self.ev_list(st1, fr, es[1:]):
                if isinstance(vs, ExcV):
                    yield st2, vs
                else:
                    yield st2, [v] + vs

    def ev_Constant(self, st, fr, e):
        yield st, K(e.value)

    def ev_Name(self, st, fr, e):
        yield st, self.lookup(st, fr, e.id)

    def ev_NamedExpr(self, st, fr, e):
        def k(st, v):
            self.store(st, fr, e.target.id, v)
            yield st, v
        yield from self.bind(self.ev(st, fr, e.value), k)

    def ev_Tuple(self, st, fr, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            yield from self._starred_seq(st, fr, e, 'tuple')
            return
        for st1, vs in self.ev_list(st, fr, e.elts):
            yield st1, (vs if isinstance(vs, ExcV) else T(vs))

    def ev_List(self, st, fr, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            yield from self._starred_seq(st, fr, e, 'list')
            return
        for st1, vs in self.ev_list(st, fr, e.elts):
            if isinstance(vs, ExcV):
                yield st1, vs
            else:
                yield st1, self.new_list(st1, self._lv(st1, vs))

    def _starred_seq(self, st, fr, e, kind):
        es = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for st1, vs in self.ev_list(st, fr, es):
            if isinstance(vs, ExcV):
                yield st1, vs
                continue
            t = ()
            for x, v in reversed(list(zip(e.elts, vs))):
                if isinstance(x, ast.Starred):
                    cs, tt = self.coerce(st1, v, 'lv')
                    if cs:
                        raise Unsupported('star of unknown sequence', e)
                    t = lapp(tt, t)
                else:
                    t = lcons(self.to_val(st1, v), t)
            yield st1, (self.new_list(st1, t) if kind == 'list' else S('val', vseq(TUPLE, t)))

    def ev_Set(self, st, fr, e):
        for st1, vs in self.ev_list(st, fr, e.elts):
            if isinstance(vs, ExcV):
                yield st1, vs
            else:
                yield st1, self.new_list(st1, self._lv(st1, vs), 'set')

    def ev_Dict(self, st, fr, e):
        def go(st, i, term):
            if i == len(e.keys):
                yield st, self.new_dict(st, term)
                return
            if e.keys[i] is None:
                for st1, v in self.ev(st, fr, e.values[i]):
                    if isinstance(v, ExcV):
                        yield st1, v
                        continue
                    cs, t = self.coerce(st1, v, 'le')
                    for st2, ok in self.fork(st1, And(*cs)):
                        if ok:
                            yield from go(st2, i + 1, t if (not isz(term) and term == ()) else eupdate(term, t))
                        else:
                            yield self.throw(st2, TypeError)
                return
            for st1, vs in self.ev_list(st, fr, [e.keys[i], e.values[i]]):
                if isinstance(vs, ExcV):
                    yield st1, vs
                else:
                    kt, vt = self.to_val(st1, vs[0]), self.to_val(st1, vs[1])
                    yield from go(st1, i + 1, eset(term, kt, vt))
        yield from go(st, 0, ())

    def ev_JoinedStr(self, st, fr, e):
        """f-string: exact when every part is a string; otherwise an opaque
        fresh string (only used in messages)."""
        def go(st, i, t):
            if i == len(e.values):
                yield st, (self.norm(S('str', t)))
                return
            p = e.values[i]
            if isinstance(p, ast.Constant):
                yield from go(st, i + 1, app(t, L.S(p.value)) if isz(t) or t != () else L.S(p.value))
                return
            if p.format_spec is not None:
                yield st, S('str', fresh(Str, 'fmt'))
                return
            try:
                n0 = len(self.obligs)
                outs = list(self.ev(st, fr, p.value))
            except Unsupported:
                del self.obligs[n0:]
                self.assumptions.add('message formatting: sub-expressions of f-strings outside the subset are assumed to evaluate without raising')
                yield st, S('str', fresh(Str, 'fmt'))
                return
            for st1, v in outs:
                if isinstance(v, ExcV):
                    yield st1, v
                    continue
                v = self.norm(v)
                if isinstance(v, (S, K)) and self.coerce(st1, v, 'str')[0] == [] and p.conversion in (-1, 115):
                    pt = self.coerce(st1, v, 'str')[1]
                    yield from go(st1, i + 1, pt if (not isz(t) and t == ()) else app(t, pt))
                elif isinstance(v, (S, K, T)) or isinstance(v, R) and not isinstance(st1.heap[v.loc], ObjCell):
                    yield from go(st1, i + 1, app(t, py_str(self.to_val(st1, v, freeze=False))) if p.conversion in (-1, 115) else fresh(Str, 'fmt'))
                else:
                    yield from go(st1, i + 1, fresh(Str, 'fmt'))
        yield from go(st, 0, ())

    def ev_IfExp(self, st, fr, e):
        def k(st, v):
            for st1, b in self.fork(st, self.truth(st, v)):
                yield from self.ev(st1, fr, e.body if b else e.orelse)
        yield from self.bind(self.ev(st, fr, e.test), k)

    def ev_BoolOp(self, st, fr, e):
        isand = isinstance(e.op, ast.And)

        def go(st, i):
            for st1, v in self.ev(st, fr, e.values[i]):
                if isinstance(v, ExcV) or i == len(e.values) - 1:
                    yield st1, v
                    continue
                for st2, b in self.fork(st1, self.truth(st1, v)):
                    if b == isand:
                        yield from go(st2, i + 1)
                    else:
                        if isinstance(v, S) and v.sort == 'bool':
                            yield st2, K(b)
                        else:
                            yield st2, v
        yield from go(st, 0)

    def ev_UnaryOp(self, st, fr, e):
        def k(st, v):
            if isinstance(e.op, ast.Not):
                b = self.truth(st, v)
                yield st, self.norm(S('bool', Not(b)))
                return
            v = self.norm(v)
            if isinstance(v, K):
                yield st, K({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v.obj))
                return
            if isinstance(e.op, ast.USub) and isinstance(v, S) and v.sort == 'int':
                yield st, S('int', -v.t)
                return
            raise Unsupported('unary operator', e)
        yield from self.bind(self.ev(st, fr, e.operand), k)

    def ev_BinOp(self, st, fr, e):
        for st1, vs in self.ev_list(st, fr, [e.left, e.right]):
            if isinstance(vs, ExcV):
                yield st1, vs
            else:
                yield from self.binop(st1, e.op, vs[0], vs[1], e)

    def binop(self, st, op, a, b, node):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, K) and isinstance(b, K) and type(a.obj) in (int, str, float, bool, tuple, bytes) and type(b.obj) in (int, str, float, bool, tuple, bytes):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
                 ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}.get(type(op))
            if f:
                try:
                    yield st, K(f(a.obj, b.obj))
                except Exception as err:
                    yield self.throw(st, type(err))
                return
        if isinstance(op, ast.Add):
            if isinstance(a, T) and isinstance(b, T):
                yield st, T(a.items + b.items)
                return
            sa, sb = self._seqkind(st, a), self._seqkind(st, b)
            if sa == 'str' and sb == 'str':
                yield st, self.norm(S('str', app(self.coerce(st, a, 'str')[1], self.coerce(st, b, 'str')[1])))
                return
            if sa == 'list' and sb == 'list':
                yield st, self.new_list(st, lapp(self.coerce(st, a, 'lv')[1], self.coerce(st, b, 'lv')[1]))
                return
            if sa == 'tuple' and sb == 'tuple':
                yield st, S('val', vseq(TUPLE, lapp(self.coerce(st, a, 'lv')[1], self.coerce(st, b, 'lv')[1])))
                return
            if sa and sb and sa != sb and 'int' not in (sa, sb):
                yield self.throw(st, TypeError)
                return
        if isinstance(op, (ast.Add, ast.Sub)) and not (self._isint(a) and self._isint(b)):
            def asint(v):
                if isinstance(v, S) and v.sort == 'bool':
                    return S('int', z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
                return K(int(v.obj)) if isinstance(v, K) and isinstance(v.obj, bool) else v
            x, y = asint(a), asint(b)
            for v, w in ((x, y), (y, x)):
                if self._isint(v) and isinstance(w, S) and w.sort == 'val' and not self.feasible(st, [z3.Not(isI(w.t))]):
                    x, y = (S('int', ofI(w.t)) if u is w else u for u in (x, y))
                    break
            if self._isint(x) and self._isint(y):
                a, b = x, y
        if self._isint(a) and self._isint(b):
            x, y = self.coerce(st, a, 'int')[1], self.coerce(st, b, 'int')[1]
            if isinstance(op, ast.Add):
                yield st, self.norm(S('int', x + y))
                return
            if isinstance(op, ast.Sub):
                yield st, self.norm(S('int', x - y))
                return
            if isinstance(op, ast.Mod) and not isz(y) and y > 0:
                yield st, S('int', x % y)
                return
            if isinstance(op, ast.Mult) and (not isz(y) or not isz(x)):
                yield st, S('int', x * y)
                return
        if isinstance(op, ast.Mod) and isinstance(a, K) and isinstance(a.obj, str):
            yield st, S('str', fresh(Str, 'fmt'))
            return
        if isinstance(op, ast.Mult):
            yield st, S('str', fresh(Str, 'fmt')) if isinstance(a, K) and isinstance(a.obj, str) else self._bad('multiplication', node)
            return
        raise Unsupported(f'operator {type(op).__name__} on {a!r} {b!r}', node)

    def _bad(self, msg, node=None):
        raise Unsupported(msg, node)

    def _isint(self, v):
        return (isinstance(v, K) and type(v.obj) is int) or (isinstance(v, S) and v.sort == 'int')

    def _seqkind(self, st, v):
        if isinstance(v, K):
            return {str: 'str', tuple: 'tuple', list: 'list', int: 'int'}.get(type(v.obj))
        if isinstance(v, T):
            return 'tuple'
        if isinstance(v, S):
            if v.sort in ('str', 'int'):
                return v.sort
            if v.sort == 'val':
                t = v.t
                if isinstance(t, tuple) and t[0] == 'Q' and not isz(t[1]):
                    return {LIST: 'list', TUPLE: 'tuple'}.get(t[1])
                if isz(t) and z3.is_app(t) and t.decl().name() == 'VSeq' and z3.is_int_value(t.arg(0)):
                    return {LIST: 'list', TUPLE: 'tuple'}.get(t.arg(0).as_long())
        if isinstance(v, R) and isinstance(st.heap[v.loc], ListCell) and st.heap[v.loc].kind == 'list':
            return 'list'
        return None

    def ev_Compare(self, st, fr, e):
        def go(st, i, left):
            for st1, right in self.ev(st, fr, e.comparators[i]):
                if isinstance(right, ExcV):
                    yield st1, right
                    continue
                for st2, c in self.compare(st1, e.ops[i], left, right, e):
                    if isinstance(c, ExcV):
                        yield st2, c
                        continue
                    if i == len(e.ops) - 1:
                        yield st2, self.norm(S('bool', c))
                        continue
                    for st3, b in self.fork(st2, c):
                        if b:
                            yield from go(st3, i + 1, right)
                        else:
                            yield st3, K(False)
        for st0, l in self.ev(st, fr, e.left):
            if isinstance(l, ExcV):
                yield st0, l
            else:
                yield from go(st0, 0, l)

    def compare(self, st, op, a, b, node):
        """iterator of (state, Bool | ExcV)"""
        a, b = self.norm(a), self.norm(b)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            r = self.equal(st, a, b, identity=isinstance(op, (ast.Is, ast.IsNot)))
            yield st, (Not(r) if isinstance(op, (ast.NotEq, ast.IsNot)) else r)
            return
        if isinstance(op, (ast.In, ast.NotIn)):
            for st1, r in self.contains(st, a, b, node):
                yield st1, (r if isinstance(r, ExcV) else Not(r) if isinstance(op, ast.NotIn) else r)
            return
        if isinstance(a, K) and isinstance(b, K):
            import operator
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            yield st, f(a.obj, b.obj)
            return
        if self._isint(a) and self._isint(b):
            x, y = self.coerce(st, a, 'int')[1], self.coerce(st, b, 'int')[1]
            yield st, {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            return
        for x, y in ((a, b), (b, a)):       # an integer and an unknown value
            if self._isint(x) and isinstance(y, S) and y.sort == 'val':
                for st1, i in self.fork(st, isI(y.t)):
                    if not i:
                        for st2, n in self.fork(st1, Or(isB(y.t), isF(y.t))):
                            if not n:
                                raise Unsupported('ordering of an unknown value', node)
                            yield st2, num_cmp(type(op).__name__, self.to_val(st2, a), self.to_val(st2, b))
                        continue
                    y1 = S('int', ofI(y.t))
                    yield from self.compare(st1, op, *((a, y1) if y is b else (y1, b)), node)
                return
        m = self.models.get(('compare', type(op).__name__))
        if m:
            yield from m(self, st, a, b)
            return
        raise Unsupported(f'comparison of {a!r} and {b!r}', node)

    def contains(self, st, x, c, node=None):
        x, c = self.norm(x), self.norm(c)
        if isinstance(c, K) and isinstance(c.obj, (frozenset, set)):
            for st1, err in self.hash_key(st, self.to_val(st, x, freeze=False)):
                yield st1, (Or(*[self.equal(st1, x, K(o)) for o in c.obj]) if err is None else err)
            return
        if isinstance(c, K) and isinstance(c.obj, (tuple, list)):
            yield st, Or(*[self.equal(st, x, K(o)) for o in c.obj])
            return
        if isinstance(c, T):
            yield st, Or(*[self.equal(st, x, o) for o in c.items])
            return
        if isinstance(c, R):
            cell = st.heap[c.loc]
            if isinstance(cell, DictCell):
                k = self.to_val(st, x, freeze=False)
                for st1, err in self.hash_key(st, k):
                    yield st1, (ehas(cell.term, k) if err is None else err)
                return
            if isinstance(cell, ListCell):
                yield st, lhas(cell.term, self.to_val(st, x, freeze=False))
                return
            if isinstance(cell, PyListCell):
                yield st, Or(*[self.equal(st, x, o) for o in cell.items])
                return
            if isinstance(cell, ObjCell):
                f, owner = self.find_attr(cell.cls, '__contains__')
                if f is not None:
                    for st1, r in self.call(st, BM(c, f, owner), [x], {}, node):
                        yield st1, (r if isinstance(r, ExcV) else self.truth(st1, r))
                    return
        if isinstance(c, K) and isinstance(c.obj, dict):
            yield st, Or(*[self.equal(st, x, K(o)) for o in c.obj])
            return
        if isinstance(c, It):
            t = self.it_term(c)
            if t is not None:
                if c.plain == 'keys':
                    yield st, ehas(c.term, self.to_val(st, x, freeze=False))
                else:
                    yield st, lhas(t, self.to_val(st, x, freeze=False))
                return
        ck, ct = self.coerce(st, c, 'str')
        xk, xt = self.coerce(st, x, 'str')
        if ck == [] and xk == []:
            yield st, substr(xt, ct)
            return
        if isinstance(c, S) and c.sort == 'val':
            kx = self.to_val(st, x, freeze=False)
            for st1, b in self.fork(st, isM(c.t)):
                if b:
                    yield st1, ehas(ofM(c.t), kx)
                    continue
                for st2, b2 in self.fork(st1, isQ(c.t)):
                    if b2:
                        yield st2, lhas(ofQ(c.t), kx)
                    else:
                        raise Unsupported('membership in unknown value', node)
            return
        if isinstance(c, O):
            m = self.meth_models.get((c.cls, '__contains__'))
            if m:
                yield from m(self, st, c, [x], {})
                return
        raise Unsupported(f'membership test {x!r} in {c!r}', node)

    # ---- attributes
    def find_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name], k
        return None, None

    def ev_Attribute(self, st, fr, e):
        def k(st, v):
            yield from self.getattr(st, v, e.attr, e)
        yield from self.bind(self.ev(st, fr, e.value), k)

    def getattr(self, st, v, name, node=None):
        v = self.norm(v)
        if isinstance(v, K):
            o = v.obj
            if isinstance(o, (str, bytes, tuple, list, dict, int, float)) and not isinstance(o, types.ModuleType):
                if hasattr(o, name):
                    yield st, BMeth(v, name)
                else:
                    yield self.throw(st, AttributeError)
                return
            if (id(o), name) in self.attr_models:
                yield from self.attr_models[(id(o), name)](self, st, v)
                return
            try:
                yield st, K(getattr(o, name))
            except AttributeError:
                yield self.throw(st, AttributeError)
            return
        if isinstance(v, T):
            f = getattr(v.cls, '_fields', ())
            if name in f:
                yield st, v.items[f.index(name)]
            else:
                yield st, BMeth(v, name)
            return
        if isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, ObjCell):
                if name in c.fields:
                    yield st, c.fields[name]
                    return
                if name == '__class__':
                    yield st, K(c.cls)
                    return
                m = self.attr_models.get((c.cls, name))
                if m is None:
                    for kk in c.cls.__mro__:
                        if (kk, name) in self.attr_models:
                            m = self.attr_models[(kk, name)]
                            break
                if m:
                    yield from m(self, st, v)
                    return
                a, owner = self.find_attr(c.cls, name)
                if owner is None:
                    if name == '__dict__':
                        raise Unsupported('__dict__', node)
                    yield self.throw(st, AttributeError)
                    return
                yield from self._class_attr(st, v, c.cls, a, owner, name, node)
                return
            if isinstance(c, (ListCell, DictCell, PyListCell)):
                yield st, BMeth(v, name)
                return
        if isinstance(v, O):
            for kk in (v.cls.__mro__ if isinstance(v.cls, type) else (v.cls,)):
                if (kk, name) in self.attr_models:
                    yield from self.attr_models[(kk, name)](self, st, v)
                    return
                if (kk, name) in self.meth_models:
                    yield st, BMeth(v, name)
                    return
            raise Unsupported(f'attribute {name} of opaque {v.cls}', node)
        if isinstance(v, S):
            if v.sort == 'val' and name in self.val_attrs:
                yield from self.val_attrs[name](self, st, v)
                return
            yield st, BMeth(v, name)
            return
        if isinstance(v, It):
            yield st, BMeth(v, name)
            return
        if isinstance(v, Sup):
            mro = (st.heap[v.recv.loc].cls if isinstance(v.recv, R) else v.recv.obj).__mro__
            i = mro.index(v.owner)
            for kk in mro[i + 1:]:
                if name in kk.__dict__:
                    a = kk.__dict__[name]
                    if isinstance(v.recv, R):
                        yield from self._class_attr(st, v.recv, kk, a, kk, name, node)
                    else:
                        yield st, BM(v.recv, a, kk)
                    return
            raise Unsupported('super attribute', node)
        if isinstance(v, (Clo, BM)) and name in ('__name__', '__class__', '__doc__'):
            yield st, S('str', fresh(Str, 'name'))
            return
        raise Unsupported(f'attribute {name} of {v!r}', node)

    def _class_attr(self, st, recv, cls, a, owner, name, node):
        if isinstance(a, types.FunctionType):
            yield st, BM(recv, a, owner)
        elif isinstance(a, property):
            yield from self.call(st, BM(recv, a.fget, owner), [], {}, node)
        elif isinstance(a, functools.cached_property):
            yield from self.call(st, BM(recv, a.func, owner), [], {}, node)
        elif isinstance(a, staticmethod):
            yield st, K(a.__func__)
        elif isinstance(a, classmethod):
            c = st.heap[recv.loc].cls if isinstance(recv, R) else cls
            yield st, BM(K(c), a.__func__, owner)
        elif isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
            yield st, BMeth(recv, name)
        elif isinstance(a, (types.GetSetDescriptorType, types.MemberDescriptorType)):
            yield self.throw(st, AttributeError)
        else:
            yield st, K(a)

    def setattr(self, st, v, name, x, node=None):
        if isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, ObjCell):
                a, owner = self.find_attr(c.cls, name)
                if isinstance(a, property) and a.fset is not None:
                    yield from self.call(st, BM(v, a.fset, owner), [x], {}, node)
                    return
                if c.param and not self._mutable_param(v, name):
                    self.oblige('frame: no attribute of an argument is assigned', st, False, node)
                if isinstance(x, R) and isinstance(st.heap[x.loc], (ListCell, DictCell)):
                    pass
                self.set_cell(st, v.loc, c.with_field(name, x))
                yield st, K(None)
                return
        raise Unsupported(f'attribute store on {v!r}', node)

    def _mutable_param(self, v, name):
        c = self.cur
        return c is not None and (name in getattr(c, 'modifies', ()) or '*' in getattr(c, 'modifies', ()))

    # ---- subscripts
    def ev_Subscript(self, st, fr, e):
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]

            def k2(st, vs):
                it = iter(vs[1:])
                lo = next(it) if e.slice.lower is not None else None
                hi = next(it) if e.slice.upper is not None else None
                step = next(it) if e.slice.step is not None else None
                return self.slice(st, vs[0], lo, hi, step, e)
            for st1, vs in self.ev_list(st, fr, [e.value] + parts):
                if isinstance(vs, ExcV):
                    yield st1, vs
                else:
                    yield from k2(st1, vs)
            return
        for st1, vs in self.ev_list(st, fr, [e.value, e.slice]):
            if isinstance(vs, ExcV):
                yield st1, vs
            else:
                yield from self.index(st1, vs[0], vs[1], e)

    def slice(self, st, v, lo, hi, step, node):
        v = self.norm(v)
        if isinstance(v, K) and all(x is None or isinstance(x, K) for x in (lo, hi, step)):
            yield st, K(v.obj[slice(*(None if x is None else x.obj for x in (lo, hi, step)))])
            return
        if isinstance(v, T) and all(x is None or isinstance(x, K) for x in (lo, hi, step)):
            yield st, T(v.items[slice(*(None if x is None else x.obj for x in (lo, hi, step)))])
            return
        if step is not None and not (isinstance(step, K) and step.obj in (None, 1)):
            raise Unsupported('slice step', node)
        lo_k = 0 if lo is None or (isinstance(lo, K) and lo.obj is None) else lo.obj if isinstance(lo, K) else None
        hi_k = 'end' if hi is None or (isinstance(hi, K) and hi.obj is None) else hi.obj if isinstance(hi, K) else None
        kind = self._seqkind(st, v)
        if kind is None and isinstance(v, S) and v.sort == 'val':
            cs, t = self.coerce(st, v, 'lv')
            kind = None
        if kind in ('str', 'list', 'tuple'):
            t = self.coerce(st, v, 'str' if kind == 'str' else 'lv')[1]
            fl = (lambda x: stl(x)) if kind == 'str' else (lambda x: lt(x))
            fi = sinit if kind == 'str' else linit
            wrap = {'str': lambda t: self.norm(S('str', t)), 'list': lambda t: self.new_list(st, t),
                    'tuple': lambda t: S('val', vseq(TUPLE, t))}[kind]
            if lo_k is not None and lo_k >= 0 and hi_k == 'end':
                outs = [(st, t)]
                for _ in range(lo_k):
                    nxt = []
                    for s1, t1 in outs:
                        for s2, b in self.fork(s1, empty(t1)):
                            nxt.append((s2, t1 if b else fl(t1)))
                    outs = nxt
                for s1, t1 in outs:
                    st = s1
                    yield s1, wrap(t1)
                return
            if lo_k == 0 and hi_k == -1:
                for s1, b in self.fork(st, empty(t)):
                    st = s1
                    yield s1, wrap(t if b else fi(t))
                return
            if lo_k == 0 and isinstance(hi_k, int) and hi_k >= 0:
                # prefix of known length
                outs = [(st, t, ())]
                for _ in range(hi_k):
                    nxt = []
                    for s1, t1, pre in outs:
                        if t1 is None:
                            nxt.append((s1, t1, pre))
                            continue
                        for s2, b in self.fork(s1, empty(t1)):
                            if b:
                                nxt.append((s2, None, pre))
                            else:
                                nxt.append((s2, fl(t1), pre + ((sh(t1) if kind == 'str' else lh(t1)),)))
                    outs = nxt
                for s1, _, pre in outs:
                    r = ()
                    for x in reversed(pre):
                        r = scons(x, r) if kind == 'str' else lcons(x, r)
                    st = s1
                    yield s1, wrap(r)
                return
            if kind in ('list', 'tuple') and hi_k == 'end' and self._isint(self.norm(lo)):
                i = self.coerce(st, lo, 'int')[1]
                self.oblige('pre: symbolic slice start is not negative', st, i >= 0, node)
                yield st, wrap(ldrop(t, i))
                return
        raise Unsupported(f'slice of {v!r}', node)

    def index(self, st, v, i, node):
        if isinstance(v, K) and isinstance(v.obj, Hashable):
            try:
                f = self.models.get(('subscript', v.obj))
            except TypeError:
                f = None
            if f is not None:
                yield from f(self, st, i)
                return
        v, i = self.norm(v), self.norm(i)
        if isinstance(v, K) and isinstance(i, K):
            try:
                yield st, K(v.obj[i.obj])
            except Exception as err:
                yield self.throw(st, type(err))
            return
        if isinstance(v, T) and isinstance(i, K) and isinstance(i.obj, int):
            try:
                yield st, v.items[i.obj]
            except IndexError:
                yield self.throw(st, IndexError)
            return
        if isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, DictCell):
                yield from self._dict_index(st, c.term, i)
                return
            if isinstance(c, ListCell):
                yield from self._list_index(st, c.term, i, node)
                return
            if isinstance(c, PyListCell) and isinstance(i, K):
                try:
                    yield st, c.items[i.obj]
                except IndexError:
                    yield self.throw(st, IndexError)
                return
            if isinstance(c, ObjCell):
                f, owner = self.find_attr(c.cls, '__getitem__')
                if isinstance(f, types.FunctionType):
                    yield from self.call(st, BM(v, f, owner), [i], {}, node)
                    return
        if self._seqkind(st, v) == 'str':
            t = self.coerce(st, v, 'str')[1]
            if isinstance(i, K) and i.obj in (0, -1):
                for st1, b in self.fork(st, empty(t)):
                    if b:
                        yield self.throw(st1, IndexError)
                    else:
                        yield st1, self.norm(S('str', scons(sh(t) if i.obj == 0 else slast(t), ())))
                return
            ii = self.coerce(st, i, 'int')[1]
            for st1, b in self.fork(st, And(0 <= ii, ii < slen(t))):
                if b:
                    yield st1, S('str', scons(snth(t, ii), ()))
                else:
                    raise Unsupported('string index possibly out of range', node)
            return
        if isinstance(v, S) and v.sort == 'val':
            for st1, b in self.fork(st, isM(v.t)):
                if b:
                    yield from self._dict_index(st1, ofM(v.t), i)
                    continue
                for st2, b2 in self.fork(st1, isQ(v.t)):
                    if b2:
                        yield from self._list_index(st2, ofQ(v.t), i, node)
                    else:
                        raise Unsupported('subscript of a value of unknown type', node)
            return
        if isinstance(v, O):
            for kk in (v.cls.__mro__ if isinstance(v.cls, type) else (v.cls,)):
                if (kk, '__getitem__') in self.meth_models:
                    yield from self.meth_models[(kk, '__getitem__')](self, st, v, [i], {})
                    return
        raise Unsupported(f'subscript of {v!r}', node)

    def hash_key(self, st, k):
        """states in which the key can be hashed; (state, exception) otherwise"""
        if not self.check_hash:
            yield st, None
            return
        for st1, b in self.fork(st, hashable(k)):
            yield (st1, None) if b else self.throw(st1, TypeError)

    def _dict_index(self, st, term, i):
        k = self.to_val(st, i, freeze=False)
        for st, err in self.hash_key(st, k):
            if err is not None:
                yield st, err
            else:
                yield from self._dict_index2(st, term, k)

    def _dict_index2(self, st, term, k):
        for st1, b in self.fork(st, ehas(term, k)):
            if b:
                yield st1, self.norm(S('val', eget(term, k)))
            else:
                yield self.throw(st1, KeyError)

    def _list_index(self, st, term, i, node):
        if isinstance(i, K) and i.obj == -1 and isinstance(i.obj, int):
            for st1, b in self.fork(st, empty(term)):
                if b:
                    yield self.throw(st1, IndexError)
                else:
                    yield st1, self.norm(S('val', llast(term)))
            return
        if isinstance(i, K) and i.obj == 0 and isinstance(i.obj, int):
            for st1, b in self.fork(st, empty(term)):
                if b:
                    yield self.throw(st1, IndexError)
                else:
                    yield st1, self.norm(S('val', lh(term)))
            return
        cs, ii = self.coerce(st, i, 'int')
        if cs:
            if not (isinstance(i, S) and i.sort == 'val'):
                raise Unsupported('sequence index of unknown type', node)
            for st1, b in self.fork(st, isI(i.t)):
                if b:
                    yield from self._list_index(st1, term, S('int', ofI(i.t)), node)
                    continue
                for st2, b2 in self.fork(st1, isB(i.t)):
                    if b2:
                        yield from self._list_index(st2, term, S('int', Ite(ofB(i.t), 1, 0, Int)), node)
                        continue
                    for st3, b3 in self.fork(st2, isC(i.t)):
                        if b3:      # an object may have __index__
                            raise Unsupported('sequence index of unknown type', node)
                        yield self.throw(st3, TypeError)
            return
        if not isz(ii) and ii < 0:
            ii = llen(term) + ii
        for st1, b in self.fork(st, And(0 <= ii, ii < llen(term))):
            if b:
                yield st1, self.norm(S('val', lnth(term, ii)))
            else:
                for st2, b2 in self.fork(st1, ii >= llen(term)):
                    if b2:
                        yield self.throw(st2, IndexError)
                    else:
                        for st3, b3 in self.fork(st2, ii + llen(term) >= 0):
                            if b3:
                                yield st3, self.norm(S('val', lnth(term, ii + llen(term))))
                            else:
                                yield self.throw(st3, IndexError)

    # ---- lambdas, comprehensions
    def ev_Lambda(self, st, fr, e):
        yield from self._closure(st, fr, e)

    def _closure(self, st, fr, e):
        a = e.args
        for st1, ds in self.ev_list(st, fr, a.defaults):
            if isinstance(ds, ExcV):
                yield st1, ds
                continue
            for st2, ks in self.ev_list(st1, fr, [d for d in a.kw_defaults if d is not None]):
                if isinstance(ks, ExcV):
                    yield st2, ks
                    continue
                names = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
                yield st2, Clo(e, fr, ds, dict(zip(names, ks)))

    def ev_GeneratorExp(self, st, fr, e):
        yield from self._comp(st, fr, e, 'gen')

    def ev_ListComp(self, st, fr, e):
        yield from self._comp(st, fr, e, 'list')

    def ev_SetComp(self, st, fr, e):
        yield from self._comp(st, fr, e, 'set')

    def ev_DictComp(self, st, fr, e):
        yield from self._comp(st, fr, e, 'dict')

    def _comp(self, st, fr, e, kind):
        """A comprehension is a loop that appends to a hidden accumulator.
        Generator expressions are evaluated eagerly (their consumers here are
        immediate)."""
        sub = Fr(f'<{kind}comp>', fr.globals, e, parent=fr, owner=fr.owner, depth=fr.depth)
        sub.fn = getattr(fr, 'fn', None)

        def at_level(st, i, acc):
            """outcomes of running generator clause i; None = normal"""
            g = e.generators[i]

            def with_iter(st, itv):
                for st1, it in self.iterate(st, itv, g.iter):
                    if isinstance(it, ExcV):
                        yield st1, it
                        continue

                    def body(st, x):
                        for st1, o in self.assign(st, sub, g.target, x):
                            if isinstance(o, ExcV):
                                yield st1, o
                            else:
                                yield from conds(st1, 0)

                    def conds(st, j):
                        if j == len(g.ifs):
                            if i + 1 < len(e.generators):
                                yield from at_level(st, i + 1, acc)
                            else:
                                yield from emit(st)
                            return
                        for st1, v in self.ev(st, sub, g.ifs[j]):
                            if isinstance(v, ExcV):
                                yield st1, v
                                continue
                            for st2, b in self.fork(st1, self.truth(st1, v)):
                                if b:
                                    yield from conds(st2, j + 1)
                                else:
                                    yield st2, None

                    def emit(st):
                        if kind == 'dict':
                            for st1, vs in self.ev_list(st, sub, [e.key, e.value]):
                                if isinstance(vs, ExcV):
                                    yield st1, vs
                                    continue
                                c = st1.heap[acc.loc]
                                self.set_cell(st1, acc.loc, c.with_(term=eset(c.term, self.to_val(st1, vs[0]), self.to_val(st1, vs[1]))))
                                yield st1, None
                        else:
                            for st1, v in self.ev(st, sub, e.elt):
                                if isinstance(v, ExcV):
                                    yield st1, v
                                    continue
                                c = st1.heap[acc.loc]
                                if isinstance(c, PyListCell):
                                    st1.heap[acc.loc] = PyListCell(c.items + (v,))
                                    st1.muts.add(acc.loc)
                                else:
                                    self.set_cell(st1, acc.loc, c.with_(term=lapp(c.term, lcons(self.to_val(st1, v), ()))))
                                yield st1, None
                    yield from self.loop(st1, sub, e if i == 0 else g, it, body, [g.target], acc=acc)
            yield from self.bind(self.ev(st, fr if i == 0 else sub, g.iter), with_iter)

        st = st.fork()
        st.frames[sub.fid] = {}
        acc = self.new_dict(st, ()) if kind == 'dict' else self.new_list(st, (), 'set' if kind == 'set' else 'list')
        for st1, o in at_level(st, 0, acc):
            if isinstance(o, ExcV):
                if kind == 'gen':
                    # raised while being consumed; consumers here are immediate
                    pass
                yield st1, o
            elif o is None:
                if kind == 'gen':
                    yield st1, It('lv', st1.heap[acc.loc].term, plain='id')
                else:
                    yield st1, acc
            else:
                raise Unsupported('control flow out of comprehension', e)

    def ev_Starred(self, st, fr, e):
        for st1, v in self.ev(st, fr, e.value):
            yield st1, (v if isinstance(v, ExcV) else StarArg(v))

    # ---- yield
    def ev_Yield(self, st, fr, e):
        def k(st, v):
            f = fr
            while f.node is not None and isinstance(f.node, (ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)):
                f = f.parent
            if f.handler is not None:
                for st1, o in f.handler(st, v):
                    if isinstance(o, ExcV):
                        yield st1, o
                    elif o is None:
                        yield st1, K(None)
                    else:
                        st1.pending[f.fid] = o
                        yield st1, K(None)
                return
            c = st.heap[f.yloc]
            self.set_cell(st, f.yloc, c.with_(term=lapp(c.term, lcons(self.to_yield(st, v), ()))))
            if self.on_yield is not None:      # what others may do before the generator is resumed
                self.on_yield(self, st, fr)
            yield st, K(None)
        if e.value is None:
            yield from k(st, K(None))
        else:
            yield from self.bind(self.ev(st, fr, e.value), k)

    def to_yield(self, st, v):
        return self.to_val(st, v)

    def ev_YieldFrom(self, st, fr, e):
        def k(st, v):
            for st1, it in self.iterate(st, v, e):
                if isinstance(it, ExcV):
                    yield st1, it
                    continue
                t = self.it_term(it)
                if t is None:
                    raise Unsupported('yield from', e)
                c = st1.heap[fr.yloc]
                self.set_cell(st1, fr.yloc, c.with_(term=lapp(c.term, t)))
                if it.tail is not None:
                    yield st1, it.tail
                else:
                    yield st1, K(None)
        yield from self.bind(self.ev(st, fr, e.value), k)

    # ---- calls
    def ev_Call(self, st, fr, e):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.owner is None:
                f = f.parent
            first = None
            g = f
            while g is not None:
                a = g.node.args
                ps = a.posonlyargs + a.args
                if ps and g.owner is not None:
                    first = st.frames[g.fid][ps[0].arg]
                    break
                g = g.parent
            yield st, Sup(f.owner, first)
            return
        kws = e.keywords
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all', 'tuple', 'list') and len(e.args) == 1 and not kws:
            g = self._map_as_gen(st, fr, e.args[0])
            if g is not None:       # any(map(f, xs)) is any(f(x) for x in xs)
                e = ast.copy_location(ast.Call(func=e.func, args=[g], keywords=[]), e)

        def k(st, f):
            for st1, args in self.ev_list(st, fr, e.args):
                if isinstance(args, ExcV):
                    yield st1, args
                    continue
                for st2, kv in self.ev_list(st1, fr, [x.value for x in kws]):
                    if isinstance(kv, ExcV):
                        yield st2, kv
                        continue
                    kwargs = {}
                    for x, v in zip(kws, kv):
                        if x.arg is None:
                            if isinstance(v, R) and isinstance(st2.heap[v.loc], DictCell) and not isz(st2.heap[v.loc].term) and st2.heap[v.loc].term == ():
                                continue
                            if isinstance(v, PyDict):
                                kwargs.update(v.items)
                                continue
                            if isinstance(v, R) and isinstance(st2.heap[v.loc], DictCell):      # the callee gets a copy
                                v = self.alloc(st2, DictCell(st2.heap[v.loc].term, 'dict'))
                            kwargs['**'] = v
                        else:
                            kwargs[x.arg] = v
                    flat = []
                    for a in args:
                        if isinstance(a, StarArg) and isinstance(a.v, T):
                            flat.extend(a.v.items)
                        elif isinstance(a, StarArg) and isinstance(a.v, R) and isinstance(st2.heap[a.v.loc], ListCell):      # the callee gets a tuple
                            flat.append(StarArg(S('val', vseq(TUPLE, st2.heap[a.v.loc].term))))
                        elif isinstance(a, StarArg) and isinstance(a.v, K) and isinstance(a.v.obj, tuple):
                            flat.extend(K(x) for x in a.v.obj)
                        else:
                            flat.append(a)
                    d = kwargs.get('**')
                    if isinstance(d, R) and isinstance(st2.heap[d.loc], DictCell):
                        for st3, b in self.fork(st2, allstr(ekeys(st2.heap[d.loc].term))):
                            if b:
                                yield from self.call(st3, f, flat, kwargs, e)
                            else:
                                yield self.throw(st3, TypeError)
                        continue
                    yield from self.call(st2, f, flat, kwargs, e)
        yield from self.bind(self.ev(st, fr, e.func), k)

    def _map_as_gen(self, st, fr, n):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'map' and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args)
                and isinstance(n.args[0], (ast.Name, ast.Attribute))):
            return None
        try:
            for _, f in self.ev(st.fork(), fr, n.args[0]):
                f = f.obj if isinstance(f, K) else None
                if isinstance(f, (type, types.FunctionType)) and (f in self.map_models or getattr(self.contracts.get(f), 'mapped', None)):
                    return None
        except Unsupported:
            return None
        if not hasattr(n, 'as_gen'):
            x = '_item'
            g = ast.GeneratorExp(elt=ast.Call(func=n.args[0], args=[ast.Name(id=x, ctx=ast.Load())], keywords=[]),
                                 generators=[ast.comprehension(target=ast.Name(id=x, ctx=ast.Store()), iter=n.args[1], ifs=[], is_async=0)])
            n.as_gen = ast.fix_missing_locations(ast.copy_location(g, n))
        return n.as_gen

    def call(self, st, f, args, kwargs, node=None):
        """iterator of (state, SV | ExcV)"""
        args = _peel(args)
        if args and isinstance(args[-1], StarArg) and isinstance(args[-1].v, S) and args[-1].v.sort in ('val', 'lv') and sum(isinstance(a, StarArg) for a in args) == 1:
            fn = f.fn if isinstance(f, BM) else f.obj if isinstance(f, K) else None
            code = getattr(inspect.unwrap(fn), '__code__', None) if isinstance(fn, types.FunctionType) else None
            v = args[-1].v
            n = len(args) - 1 + isinstance(f, BM)
            if code is not None and n < code.co_argcount and in_repo(inspect.unwrap(fn)) and (v.sort == 'lv' or isz(v.t) and z3.is_app(v.t) and v.t.decl().name() == 'VSeq'):
                # items of the list go to the positional parameters
                items = v.t if v.sort == 'lv' else ofQ(v.t)
                for st1, b in self.fork(st, empty(items)):
                    if b:
                        yield from self.call(st1, f, args[:-1], kwargs, node)
                    else:
                        yield from self.call(st1, f, list(args[:-1]) + [self.norm(S('val', lh(items))), StarArg(S('val', vseq(TUPLE, lt(items))))], kwargs, node)
                return
        if isinstance(f, Model):
            yield from f.fn(self, st, args, kwargs)
            return
        if isinstance(f, Clo):
            yield from self.call_node(st, f.node, f.fr.globals, f.fr, args, kwargs, f.defaults, f.kwdefaults, getattr(f.node, 'name', '<lambda>'), None, node, depth=f.fr.depth)
            return
        if isinstance(f, BM):
            yield from self.call_py(st, f.fn, [f.recv] + list(args), kwargs, f.owner, node)
            return
        if isinstance(f, BMeth):
            r = f.recv
            if isinstance(r, O):
                for kk in (r.cls.__mro__ if isinstance(r.cls, type) else (r.cls,)):
                    if (kk, f.name) in self.meth_models:
                        yield from self.meth_models[(kk, f.name)](self, st, r, args, kwargs)
                        return
            yield from self.builtin_method(st, r, f.name, args, kwargs, node)
            return
        if isinstance(f, O):
            for kk in (f.cls.__mro__ if isinstance(f.cls, type) else (f.cls,)):
                if kk in self.call_models:
                    yield from self.call_models[kk](self, st, f, args, kwargs)
                    return
        if isinstance(f, R) and isinstance(st.heap[f.loc], ObjCell):
            c = st.heap[f.loc]
            if c.cls in self.call_models:
                yield from self.call_models[c.cls](self, st, f, args, kwargs)
                return
            a, owner = self.find_attr(c.cls, '__call__')
            if isinstance(a, types.FunctionType):
                yield from self.call_py(st, a, [f] + list(args), kwargs, owner, node)
                return
        if isinstance(f, S) and f.sort == 'val' and 'anycall' in self.call_models:
            yield from self.call_models['anycall'](self, st, f, args, kwargs)
            return
        if isinstance(f, K):
            o = f.obj
            if isinstance(o, types.MethodType):
                yield from self.call_py(st, o.__func__, [K(o.__self__)] + list(args), kwargs, None, node)
                return
            try:
                m = self.models.get(o)
            except TypeError:
                m = None
            if m is not None:
                yield from m(self, st, args, kwargs)
                return
            if isinstance(o, types.FunctionType):
                yield from self.call_py(st, o, list(args), kwargs, None, node)
                return
            if isinstance(o, type):
                yield from self.instantiate(st, o, args, kwargs, node)
                return
            if hasattr(o, '__wrapped__') and isinstance(o.__wrapped__, types.FunctionType) and in_repo(o.__wrapped__):
                yield from self.call_py(st, o.__wrapped__, list(args), kwargs, None, node)
                return
        raise Unsupported(f'call of {f!r}', node)

    def instantiate(self, st, cls, args, kwargs, node):
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            items = list(args)
            for n in cls._fields[len(items):]:
                if n in kwargs:
                    items.append(kwargs[n])
                elif n in cls._field_defaults:
                    items.append(K(cls._field_defaults[n]))
            if len(items) != len(cls._fields) or any(n not in cls._fields for n in kwargs):
                yield self.throw(st, TypeError)
                return
            yield st, T(items, cls)
            return
        init, owner = self.find_attr(cls, '__init__')
        if issubclass(cls, BaseException):
            st = st.fork()
            ref = self.alloc(st, ObjCell(cls, {}))
            if isinstance(init, types.FunctionType):
                for st1, v in self.call_py(st, init, [ref] + list(args), kwargs, owner, node):
                    yield st1, (v if isinstance(v, ExcV) else ref)
            else:
                yield st, ref
            return
        if dataclasses.is_dataclass(cls):
            fs = [f for f in dataclasses.fields(cls) if f.init]
            fields = {}
            for f, a in zip(fs, args):
                fields[f.name] = a
            for n, v in kwargs.items():
                fields[n] = v
            for f in fs:
                if f.name not in fields:
                    if f.default is not dataclasses.MISSING:
                        fields[f.name] = K(f.default)
                    else:
                        yield self.throw(st, TypeError)
                        return
            st = st.fork()
            yield st, self.alloc(st, ObjCell(cls, fields))
            return
        if isinstance(init, types.FunctionType) and in_repo(init):
            st = st.fork()
            ref = self.alloc(st, ObjCell(cls, {}))
            for st1, v in self.call_py(st, init, [ref] + list(args), kwargs, owner, node):
                yield st1, (v if isinstance(v, ExcV) else ref)
            return
        if init is object.__init__ and not args and not kwargs:
            st = st.fork()
            yield st, self.alloc(st, ObjCell(cls, {}))
            return
        raise Unsupported(f'construction of {cls}', node)

    def unwrap(self, fn):
        return fn

    def call_py(self, st, fn, args, kwargs, owner, node):
        while isinstance(fn, (staticmethod, classmethod)):
            fn = fn.__func__
        c = self.contracts.get(fn)
        if c is not None:
            yield from self.apply_contract(st, c, args, kwargs, node)
            return
        if is_cm(fn):
            raise Unsupported('context manager used outside a with statement', node)
        if not isinstance(fn, types.FunctionType) and hasattr(fn, '__wrapped__'):
            fn = fn.__wrapped__
        if isinstance(fn, types.FunctionType) and fn in self.models:
            yield from self.models[fn](self, st, args, kwargs)
            return
        if isinstance(fn, types.FunctionType) and not in_repo(fn):
            w = getattr(fn, '__wrapped__', None)
            if w is not None and isinstance(w, types.FunctionType) and in_repo(w):
                fn = w
        if isinstance(fn, types.FunctionType) and in_repo(fn):
            w = getattr(fn, '__wrapped__', None)
            if w is not None and w.__code__ is not fn.__code__:
                # a repository decorator keeping __wrapped__ (marsh.utils.cache):
                # transparent by property C19 (assumed here)
                self.assumptions.add('marsh.utils.cache wrappers return what the wrapped function returns (property C19)')
                yield from self.call_py(st, w, args, kwargs, owner, node)
                return
            n = source_node(fn)
            defaults = [K(d) for d in (fn.__defaults__ or ())]
            kwd = {k: K(v) for k, v in (fn.__kwdefaults__ or {}).items()}
            if owner is None:
                owner = self.owner_of(fn)
            self.inlined.add(f'{fn.__module__}.{fn.__qualname__}')
            yield from self.call_node(st, n, fn.__globals__, None, args, kwargs, defaults, kwd, fn.__qualname__, owner, node, fn=fn)
            return
        raise Unsupported(f'call of external function {fn!r}', node)

    def owner_of(self, fn):
        q = fn.__qualname__.split('.')
        if len(q) < 2 or '<locals>' in q:
            return None
        o = inspect.getmodule(fn) or __import__('sys').modules.get(fn.__module__)
        for p in q[:-1]:
            o = getattr(o, p, None)
            if o is None:
                return None
        return o if isinstance(o, type) else None

    def bind_params(self, st, a, args, kwargs, defaults, kwdefaults, fname, node):
        """env dict or None (TypeError)"""
        env = {}
        args, kwargs = list(args), dict(kwargs)
        pos = a.posonlyargs + a.args
        star = None
        if any(isinstance(x, StarArg) for x in args):
            i = next(j for j, x in enumerate(args) if isinstance(x, StarArg))
            if i < len(pos) or i != len(args) - 1 or a.vararg is None:
                raise Unsupported(f'star argument to {fname}', node)
            star = args.pop().v
        dstar = kwargs.pop('**', None)
        if dstar is not None and a.kwarg is None:
            raise Unsupported(f'double star argument to {fname}', node)
        for p, v in zip(pos, args):
            env[p.arg] = v
        extra = args[len(pos):]
        if star is not None:
            if extra:
                if not (isinstance(star, S) and star.sort == 'val' and z3.is_app(star.t) and star.t.decl().name() == 'VSeq'):
                    raise Unsupported('mixed star arguments', node)
                items = ofQ(star.t)
                for x in reversed(extra):
                    items = lcons(self.to_val(self._bind_st, x), items)
                star = S('val', vseq(TUPLE, items))
            env[a.vararg.arg] = star
        elif a.vararg is not None:
            env[a.vararg.arg] = T(extra)
        elif extra:
            return None
        ponly = {p.arg for p in a.posonlyargs}
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        rest = {}
        for n, v in kwargs.items():
            if n in names:
                if n in env:
                    return None
                env[n] = v
            else:
                rest[n] = v
        if a.kwarg is not None:
            if dstar is not None:
                if rest:
                    raise Unsupported('mixed double star arguments', node)
                env[a.kwarg.arg] = dstar
            else:
                env[a.kwarg.arg] = PyDict(rest)
        elif rest:
            return None
        nd = len(defaults)
        for p, d in zip(pos[len(pos) - nd:], defaults):
            env.setdefault(p.arg, d)
        for n, d in kwdefaults.items():
            env.setdefault(n, d)
        for p in pos + a.kwonlyargs:
            if p.arg not in env:
                return None
        return env

    def call_node(self, st, n, globals_, parent, args, kwargs, defaults, kwdefaults, fname, owner, node, handler=None, depth=0, fn=None, locs=None):
        self._bind_st = st
        env = self.bind_params(st, n.args, args, kwargs, defaults, kwdefaults, fname, node)
        if env is None:
            yield self.throw(st, TypeError)
            return
        self.depth = getattr(self, 'depth', 0) + 1
        try:
            if self.depth > self.MAXDEPTH:
                raise Unsupported(f'recursion without a contract ({fname})', node)
            yield from self.run_body(st, n, globals_, parent, env, fname, owner, handler, fn)
        finally:
            self.depth -= 1

    def run_body(self, st, n, globals_, parent, env, fname, owner, handler=None, fn=None):
        fr = Fr(fname, globals_, n, parent=parent, owner=owner)
        fr.fn = fn
        if isinstance(n, ast.Lambda):
            st = st.fork()
            st.frames[fr.fid] = env
            yield from self.ev(st, fr, n.body)
            return
        st = st.fork()
        st.frames[fr.fid] = env
        todo = list(n.body)
        while todo:
            s = todo.pop()
            if isinstance(s, ast.Nonlocal):
                fr.nonlocals.update(s.names)
            elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo.extend(ast.iter_child_nodes(s))
        gen = _is_gen(n)
        fr.handler = handler
        if gen and handler is None:
            fr.yloc = self.alloc(st, ListCell(())).loc
        for st1, o in self.block(st, fr, n.body):
            if handler is not None:
                p = st1.pending.pop(fr.fid, None)
                if isinstance(o, ExcV):
                    yield st1, o
                elif o is None or isinstance(o, Ret):
                    yield st1, ('cm', p)
                else:
                    raise Unsupported('bad outcome of context manager')
                continue
            if gen:
                ys = st1.heap[fr.yloc].term
                if isinstance(o, ExcV):
                    yield st1, It('lv', ys, plain='id', tail=o)
                else:
                    yield st1, It('lv', ys, plain='id')
                continue
            if o is None:
                yield st1, K(None)
            elif isinstance(o, Ret):
                yield st1, o.v
            elif isinstance(o, ExcV):
                yield st1, o
            else:
                raise Unsupported('break/continue escaping')

    # ---------------------------------------------------- contracts
    def apply_contract(self, st, c, args, kwargs, node):
        fn = c.fn
        n = source_node(inspect.unwrap(fn)) if c.params is None else None
        a = n.args if n is not None else c.params
        defaults = [K(d) for d in (fn.__defaults__ or ())] if fn is not None else []
        kwd = {k: K(v) for k, v in (fn.__kwdefaults__ or {}).items()} if fn is not None else {}
        env = self.bind_params(st, a, args, kwargs, defaults, kwd, c.name, node)
        if env is None:
            yield self.throw(st, TypeError)
            return
        env.update({p: env[r] for p, r in c.pmap.items() if r in env and p != r})
        for c2 in [c] + getattr(c, 'others', []):
            if all(isinstance(self.norm(env[p]), K) and self.norm(env[p]).obj is s.obj for p, s in c2.sig.items() if type(s).__name__ == 'Const'):
                c = c2
                break
        self.used_contracts[c.name] = c
        st = st.fork()
        av = Args()
        conds = []
        for p, sort in c.sig.items():
            if type(sort).__name__ == 'Const':
                v = self.norm(env[p])
                if not (isinstance(v, K) and v.obj is sort.obj):
                    raise Unsupported(f'the contract of {c.name} covers {p}={sort.obj!r} only', node)
                setattr(av, p, sort.obj)
                continue
            cs, t = self.coerce(st, env[p], sort)
            conds += cs
            setattr(av, p, t)
        av._st = st
        av._env = env
        pre = And(*conds, *c.requires(av)) if not any(x is False for x in conds) else False
        if pre is not True:
            if c.total:
                # contract covers only arguments meeting the precondition
                pass
            self.oblige(f'call {c.name}: precondition', st, pre, node)
            st.assume(pre)
        cases = [(case.cond, a) for case in c.cases(av) for a in (case.alts if case.kind == 'may' else [case])]
        for cond, case in cases:
            st1 = st.fork()
            st1.assume(cond)
            if not (cond is True) and not self.feasible(st1):
                continue
            for ploc, t in (case.muts or {}).items():
                ref = env[ploc]
                if callable(t) and not isz(t):
                    new = fresh(LE if isinstance(ref, R) and isinstance(st1.heap[ref.loc], DictCell) else LV, ploc)
                    st1.assume(And(*_aslist(t(new))))
                    t = new
                if isinstance(ref, R):
                    self.mutate(st1, ref, t, node)
            self._apply_fields(st1, c, case, env, node)
            if case.kind == 'ret':
                sort = case.sort or c.ret
                if case.val is None and case.make is not None and sort == 'any':
                    t = None
                elif case.val is None and sort != 'none':
                    t = self.fresh_of(sort, c.short)
                else:
                    t = case.val
                if case.where is not None:
                    st1.assume(And(*_aslist(case.where(t))))
                if case.make is not None:
                    yield st1, case.make(self, st1, av)
                elif sort == 'gen':
                    tail = None
                    if case.exc is not None:
                        tail = ExcV(self.make_exc(st1, case.exc, self._case_path(st1, case), exact=False))
                    yield st1, It('lv', t, plain='id', tail=tail)
                else:
                    v = self.wrap(st1, t, sort)
                    if c.retcls is not None and isinstance(v, T):
                        v = T(v.items, c.retcls)
                    yield st1, v
            else:
                yield st1, ExcV(self.make_exc(st1, case.exc, self._case_path(st1, case), exact=False))

    def _apply_fields(self, st, c, case, env, node):
        """the fields of the arguments that the contract says it changes"""
        for p, sort in c.sig.items():
            if type(sort).__name__ != 'Obj' or not c.modifies:
                continue
            ref = env[p]
            if not isinstance(ref, R):
                raise Unsupported('a contract changes the fields of an unknown object', node)
            for f, s in sort.fields.items():
                if f not in c.modifies and '*' not in c.modifies:
                    continue
                cell = st.heap[ref.loc]
                if cell.param and not self._mutable_param(ref, f):
                    self.oblige('frame: no attribute of an argument is assigned', st, False, node)
                old = cell.fields[f]
                if isinstance(old, R) and any(isinstance(v, R) and v.loc == old.loc for fr in st.frames.values() for v in fr.values()):
                    raise Unsupported('a contract changes a field that is held elsewhere', node)
                t = (case.fields or {}).get((p, f), (s, None))[1]
                if t is None or (callable(t) and not isz(t)):
                    new = self.fresh_of('lv' if s == 'iter' else s, f)
                    if t is not None:
                        st.assume(And(*_aslist(t(new))))
                    t = new
                if isinstance(s, str) and s in ('lv', 'le', 'iter'):
                    v = self.alloc(st, DictCell(t, 'dict') if s == 'le' else ListCell(t, 'iter' if s == 'iter' else 'list'))
                else:
                    v = self.wrap(st, t, s)
                self.set_cell(st, ref.loc, st.heap[ref.loc].with_field(f, v))

    def _case_path(self, st, case):
        p = case.path
        if callable(p) and not isz(p):
            t = fresh(Str, 'path')
            st.assume(And(*_aslist(p(t))))
            return t
        if p is None and self._is_marsh(case.exc):
            return fresh(Str, 'path')
        return p

    # ---------------------------------------------------- statements
    def block(self, st, fr, body):
        """iterator of (state, outcome); outcome None = normal completion"""
        if not body:
            yield st, None
            return
        for st1, o in self.stmt(st, fr, body[0]):
            if o is None:
                yield from self.block(st1, fr, body[1:])
            else:
                yield st1, o

    def stmt(self, st, fr, s):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}', s)
        return m(st, fr, s)

    def st_Pass(self, st, fr, s):
        yield st, None

    def st_Global(self, st, fr, s):
        raise Unsupported('global statement', s)

    def st_Nonlocal(self, st, fr, s):
        yield st, None

    def st_Expr(self, st, fr, s):
        if isinstance(s.value, ast.Constant):
            yield st, None
            return
        for st1, v in self.ev(st, fr, s.value):
            yield st1, (v if isinstance(v, ExcV) else None)

    def st_Return(self, st, fr, s):
        if s.value is None:
            yield st, Ret(K(None))
            return
        for st1, v in self.ev(st, fr, s.value):
            yield st1, (v if isinstance(v, ExcV) else Ret(v))

    def st_Break(self, st, fr, s):
        yield st, BRK

    def st_Continue(self, st, fr, s):
        yield st, CONT

    def st_Assert(self, st, fr, s):
        for st1, v in self.ev(st, fr, s.test):
            if isinstance(v, ExcV):
                yield st1, v
                continue
            for st2, b in self.fork(st1, self.truth(st1, v)):
                if b:
                    yield st2, None
                else:
                    yield self.throw(st2, AssertionError)

    def st_FunctionDef(self, st, fr, s):
        if s.decorator_list:
            raise Unsupported('decorated nested function', s)
        for st1, c in self._closure(st, fr, s):
            if isinstance(c, ExcV):
                yield st1, c
                continue
            self.store(st1, fr, s.name, c)
            yield st1, None

    def st_Assign(self, st, fr, s):
        def k(st, v):
            outs = [(st, None)]
            for t in s.targets:
                nxt = []
                for st1, o in outs:
                    if o is not None:
                        nxt.append((st1, o))
                    else:
                        nxt.extend(self.assign(st1, fr, t, v))
                outs = nxt
            yield from outs
        yield from self.bind(self.ev(st, fr, s.value), k)

    def st_AnnAssign(self, st, fr, s):
        if s.value is None:
            yield st, None
            return
        yield from self.bind(self.ev(st, fr, s.value), lambda st, v: self.assign(st, fr, s.target, v))

    def st_AugAssign(self, st, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            for st1, vs in self.ev_list(st, fr, [ast.Name(id=t.id, ctx=ast.Load()), s.value]):
                if isinstance(vs, ExcV):
                    yield st1, vs
                    continue
                a, b = vs
                if isinstance(a, R) and isinstance(st1.heap[a.loc], ListCell) and isinstance(s.op, ast.Add):
                    cs, tb = self.coerce(st1, b, 'lv')
                    if cs:
                        raise Unsupported('augmented list assignment', s)
                    self.mutate(st1, a, lapp(st1.heap[a.loc].term, tb), s)
                    yield st1, None
                    continue
                for st2, r in self.binop(st1, s.op, a, b, s):
                    if isinstance(r, ExcV):
                        yield st2, r
                    else:
                        self.store(st2, fr, t.id, r)
                        yield st2, None
            return
        if isinstance(t, ast.Attribute):
            def k(st, o):
                for st1, a in self.getattr(st, o, t.attr, s):
                    if isinstance(a, ExcV):
                        yield st1, a
                        continue
                    for st2, b in self.ev(st1, fr, s.value):
                        if isinstance(b, ExcV):
                            yield st2, b
                            continue
                        for st3, r in self.binop(st2, s.op, a, b, s):
                            if isinstance(r, ExcV):
                                yield st3, r
                                continue
                            for st4, x in self.setattr(st3, o, t.attr, r, s):
                                yield st4, (x if isinstance(x, ExcV) else None)
            yield from self.bind(self.ev(st, fr, t.value), k)
            return
        raise Unsupported('augmented assignment', s)

    def assign(self, st, fr, t, v):
        """iterator of (state, None|ExcV)"""
        if isinstance(t, ast.Name):
            self.store(st, fr, t.id, v)
            yield st, None
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.norm(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment', t)
            if isinstance(v, T):
                items = v.items
                if len(items) != len(t.elts):
                    yield self.throw(st, ValueError)
                    return
            elif isinstance(v, K) and isinstance(v.obj, tuple):
                items = [K(x) for x in v.obj]
                if len(items) != len(t.elts):
                    yield self.throw(st, ValueError)
                    return
            elif isinstance(v, S) and v.sort == 'val' or isinstance(v, R) and isinstance(st.heap[v.loc], ListCell):
                cs, term = self.coerce(st, v, 'lv')
                items = []
                x = term
                cond = list(cs)
                for _ in t.elts:
                    cond.append(Not(empty(x)))
                    items.append(self.norm(S('val', lh(x))))
                    x = lt(x)
                cond.append(empty(x))
                st = st.fork()
                outs = self.fork(st, And(*cond))
                for st1, b in outs:
                    if not b:
                        yield self.throw(st1, ValueError)
                        continue
                    yield from self._assign_many(st1, fr, t.elts, items)
                return
            else:
                raise Unsupported(f'unpacking of {v!r}', t)
            yield from self._assign_many(st, fr, t.elts, items)
            return
        if isinstance(t, ast.Attribute):
            def k(st, o):
                for st1, r in self.setattr(st, o, t.attr, v, t):
                    yield st1, (r if isinstance(r, ExcV) else None)
            yield from self.bind(self.ev(st, fr, t.value), k)
            return
        if isinstance(t, ast.Subscript):
            for st1, vs in self.ev_list(st, fr, [t.value, t.slice]):
                if isinstance(vs, ExcV):
                    yield st1, vs
                    continue
                yield from self.setitem(st1, vs[0], vs[1], v, t)
            return
        raise Unsupported('assignment target', t)

    def _assign_many(self, st, fr, targets, items):
        if not targets:
            yield st, None
            return
        for st1, o in self.assign(st, fr, targets[0], items[0]):
            if o is not None:
                yield st1, o
            else:
                yield from self._assign_many(st1, fr, targets[1:], items[1:])

    def setitem(self, st, c, i, v, node):
        if isinstance(c, R):
            cell = st.heap[c.loc]
            if isinstance(cell, DictCell):
                self.check_param(st, c, node)
                k = self.to_val(st, i)
                for st1, err in self.hash_key(st, k):
                    if err is None:
                        self.mutate(st1, c, eset(cell.term, k, self.to_val(st1, v)), node)
                    yield st1, err
                return
            if isinstance(cell, ListCell):
                self.check_param(st, c, node)
                cs, ii = self.coerce(st, i, 'int')
                if cs:
                    raise Unsupported('list store', node)
                if not isz(ii) and ii < 0:
                    ii = llen(cell.term) + ii
                n = llen(cell.term)
                for st1, b in self.fork(st, And(0 <= ii, ii < n)):
                    if b:
                        self.mutate(st1, c, lupd(cell.term, ii, self.to_val(st1, v)), node)
                        yield st1, None
                    else:
                        for st2, b2 in self.fork(st1, And(ii < 0, ii + n >= 0)):
                            if b2:
                                self.mutate(st2, c, lupd(cell.term, ii + n, self.to_val(st2, v)), node)
                                yield st2, None
                            else:
                                yield self.throw(st2, IndexError)
                return
            if isinstance(cell, ObjCell):
                f, owner = self.find_attr(cell.cls, '__setitem__')
                if isinstance(f, types.FunctionType):
                    for st1, r in self.call(st, BM(c, f, owner), [i, v], {}, node):
                        yield st1, (r if isinstance(r, ExcV) else None)
                    return
        if isinstance(c, S) and c.sort == 'val':
            self.oblige('frame: an input container is not modified', st, False, node)
            raise Unsupported('store into an input container', node)
        if isinstance(c, O):
            for kk in (c.cls.__mro__ if isinstance(c.cls, type) else (c.cls,)):
                if (kk, '__setitem__') in self.meth_models:
                    for st1, r in self.meth_models[(kk, '__setitem__')](self, st, c, [i, v], {}):
                        yield st1, (r if isinstance(r, ExcV) else None)
                    return
        raise Unsupported(f'item store on {c!r}', node)

    def check_param(self, st, ref, node):
        c = st.heap[ref.loc]
        if getattr(c, 'param', False) is True:
            self.oblige('frame: an input container is not modified', st, False, node)

    def st_Delete(self, st, fr, s):
        outs = [(st, None)]
        for t in s.targets:
            nxt = []
            for st1, o in outs:
                if o is not None:
                    nxt.append((st1, o))
                    continue
                if isinstance(t, ast.Name):
                    st1.frames[fr.fid].pop(t.id, None)
                    nxt.append((st1, None))
                elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    for st2, vs in self.ev_list(st1, fr, [t.value, t.slice]):
                        if isinstance(vs, ExcV):
                            nxt.append((st2, vs))
                        else:
                            nxt.extend(self.delitem(st2, vs[0], vs[1], t))
                elif isinstance(t, ast.Subscript) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    for st2, v in self.ev(st1, fr, t.value):
                        if isinstance(v, ExcV):
                            nxt.append((st2, v))
                            continue
                        if isinstance(v, R) and isinstance(st2.heap[v.loc], ListCell):
                            self.check_param(st2, v, t)
                            self.mutate(st2, v, (), t)
                            nxt.append((st2, None))
                        else:
                            raise Unsupported('slice deletion', s)
                else:
                    raise Unsupported('delete', s)
            outs = nxt
        yield from outs

    def delitem(self, st, c, i, node):
        if isinstance(c, R):
            cell = st.heap[c.loc]
            if isinstance(cell, DictCell):
                self.check_param(st, c, node)
                k = self.to_val(st, i, freeze=False)
                for st0, err in self.hash_key(st, k):
                    if err is not None:
                        yield st0, err
                        continue
                    for st1, b in self.fork(st0, ehas(cell.term, k)):
                        if b:
                            self.mutate(st1, c, edel(cell.term, k), node)
                            yield st1, None
                        else:
                            yield self.throw(st1, KeyError)
                return
            if isinstance(cell, ListCell):
                self.check_param(st, c, node)
                cs, ii = self.coerce(st, i, 'int')
                if cs:
                    raise Unsupported('list delete', node)
                for st1, b in self.fork(st, And(0 <= ii, ii < llen(cell.term))):
                    if b:
                        self.mutate(st1, c, ldel(cell.term, ii), node)
                        yield st1, None
                        continue
                    for st2, b2 in self.fork(st1, And(-llen(cell.term) <= ii, ii < 0)):
                        if b2:
                            self.mutate(st2, c, ldel(cell.term, ii + llen(cell.term)), node)
                            yield st2, None
                        else:
                            yield self.throw(st2, IndexError)
                return
            if isinstance(cell, ObjCell):
                f, owner = self.find_attr(cell.cls, '__delitem__')
                if isinstance(f, types.FunctionType):
                    for st1, r in self.call(st, BM(c, f, owner), [i], {}, node):
                        yield st1, (r if isinstance(r, ExcV) else None)
                    return
        if isinstance(c, S) and c.sort == 'val':
            self.oblige('frame: an input container is not modified', st, False, node)
        raise Unsupported(f'item deletion on {c!r}', node)

    def st_If(self, st, fr, s):
        def k(st, v):
            for st1, b in self.fork(st, self.truth(st, v)):
                yield from self.block(st1, fr, s.body if b else s.orelse)
        yield from self.bind(self.ev(st, fr, s.test), k)

    def st_Raise(self, st, fr, s):
        if s.exc is None:
            if not st.handling:
                raise Unsupported('re-raise outside a handler', s)
            yield st, ExcV(st.handling[-1])
            return

        def k(st, v):
            if isinstance(v, K) and isinstance(v.obj, type):
                yield from self.bind(self.instantiate(st, v.obj, [], {}, s), k)
                return
            if isinstance(v, R) and isinstance(st.heap[v.loc], ObjCell) and issubclass(st.heap[v.loc].cls, BaseException):
                yield st, ExcV(v)
                return
            raise Unsupported(f'raise of {v!r}', s)
        if isinstance(s.exc, ast.Call):
            self.msgnodes.update(id(n) for a in s.exc.args for n in ast.walk(a))
        yield from self.bind(self.ev(st, fr, s.exc), k)

    def st_Try(self, st, fr, s):
        def after(st, o):
            """run finally"""
            if not s.finalbody:
                yield st, o
                return
            for st1, o1 in self.block(st, fr, s.finalbody):
                yield st1, (o if o1 is None else o1)

        for st1, o in self.block(st, fr, s.body):
            if o is None:
                for st2, o2 in self.block(st1, fr, s.orelse):
                    yield from after(st2, o2)
                continue
            if not isinstance(o, ExcV):
                yield from after(st1, o)
                continue
            yield from self.bind_handlers(st1, fr, s, o, 0, after)

    def bind_handlers(self, st, fr, s, o, i, after):
        if i == len(s.handlers):
            yield from after(st, o)
            return
        h = s.handlers[i]
        if h.type is None:
            classes = [(st, [BaseException])]
        else:
            classes = []
            for st1, v in self.ev(st, fr, h.type):
                if isinstance(v, ExcV):
                    yield from after(st1, v)
                elif isinstance(v, K):
                    classes.append((st1, list(v.obj) if isinstance(v.obj, tuple) else [v.obj]))
                elif isinstance(v, T):
                    classes.append((st1, [x.obj for x in v.items]))
                else:
                    raise Unsupported('exception class', h)
        for st1, cl in classes:
            for st2, m in self.exc_matches(st1, o.ref, cl):
                if not m:
                    yield from self.bind_handlers(st2, fr, s, o, i + 1, after)
                    continue
                if h.name:
                    self.store(st2, fr, h.name, o.ref)
                saved = st2.handling
                st2.handling = saved + (o.ref,)
                for st3, o3 in self.block(st2, fr, h.body):
                    st3.handling = saved
                    if h.name and o3 is None:
                        st3.frames[fr.fid].pop(h.name, None)
                    yield from after(st3, o3)

    def st_With(self, st, fr, s):
        yield from self._with(st, fr, s, 0)

    def _with(self, st, fr, s, i):
        if i == len(s.items):
            yield from self.block(st, fr, s.body)
            return
        item = s.items[i]
        ce = item.context_expr
        if not isinstance(ce, ast.Call):
            raise Unsupported('with', s)

        def k(st, f):
            fn = None
            recv = []
            owner = None
            if isinstance(f, K) and is_cm(f.obj):
                fn = f.obj.__wrapped__
            elif isinstance(f, BM) and is_cm(f.fn):
                fn, recv, owner = f.fn.__wrapped__, [f.recv], f.owner
            elif isinstance(f, K) and callable(f.obj) and ('with', f.obj) in self.models:
                pass
            else:
                raise Unsupported('with on something that is not a generator context manager', s)
            for st1, args in self.ev_list(st, fr, ce.args):
                if isinstance(args, ExcV):
                    yield st1, args
                    continue
                for st2, kv in self.ev_list(st1, fr, [x.value for x in ce.keywords]):
                    if isinstance(kv, ExcV):
                        yield st2, kv
                        continue
                    kwargs = {x.arg: v for x, v in zip(ce.keywords, kv)}

                    def handler(st, v):
                        if item.optional_vars is not None:
                            for st1, o in self.assign(st, fr, item.optional_vars, v):
                                if o is not None:
                                    yield st1, o
                                else:
                                    yield from self._with(st1, fr, s, i + 1)
                        else:
                            yield from self._with(st, fr, s, i + 1)
                    if fn is None:      # a context manager with a model: (what it gives, what is done at the end)
                        enter, leave = self.models[('with', f.obj)]
                        for st3, v in enter(self, st2, list(args), kwargs):
                            if isinstance(v, ExcV):
                                yield st3, v
                                continue
                            for st4, o in handler(st3, v):
                                yield from leave(self, st4, v, o)
                        continue
                    n = source_node(fn)
                    self.inlined.add(f'{fn.__module__}.{fn.__qualname__}')
                    for st3, o in self.call_node(
                        st2, n, fn.__globals__, None, recv + list(args), kwargs,
                        [K(d) for d in (fn.__defaults__ or ())],
                        {k: K(v) for k, v in (fn.__kwdefaults__ or {}).items()},
                        fn.__qualname__, owner, s, handler=handler, fn=fn,
                    ):
                        if isinstance(o, ExcV):
                            yield st3, o
                        else:
                            yield st3, o[1]
        yield from self.bind(self.ev(st, fr, ce.func), k)

    # ---------------------------------------------------- loops
    def _first_only(self, st, fr, s, v):
        """for x in obj: ... that always leaves the loop with the first item: the
        generator obj.__iter__ runs up to its first yield and is closed there"""
        if not isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Break)) or not isinstance(v, R) or not isinstance(st.heap[v.loc], ObjCell):
            return None
        f, owner = self.find_attr(st.heap[v.loc].cls, '__iter__')
        if not isinstance(f, types.FunctionType) or not inspect.isgeneratorfunction(f):
            return None
        key = ('left', id(s))

        def handler(st, x):
            for st1, o in self.assign(st, fr, s.target, x):
                for st2, o2 in ([(st1, o)] if o is not None else self.block(st1, fr, s.body)):
                    if o2 is None or o2 is CONT:
                        raise Unsupported('a loop over a generator that goes on', s)
                    st2.pending[key] = o2
                    yield st2, ExcV(self.make_exc(st2, GeneratorExit, None))

        def run():
            n = source_node(f)
            self.inlined.add(f'{f.__module__}.{f.__qualname__}')
            for st1, o in self.call_node(st, n, f.__globals__, None, [v], {}, [], {}, f.__qualname__, owner, s, handler=handler, fn=f):
                if key in st1.pending:
                    o = st1.pending.pop(key)
                    yield st1, None if o is BRK else o
                elif isinstance(o, ExcV):
                    yield st1, o
                else:
                    yield from self.block(st1, fr, s.orelse)
        return run()

    def st_For(self, st, fr, s):
        def k(st, v):
            g = self._first_only(st, fr, s, v)
            if g is not None:
                yield from g
                return
            for st1, it in self.iterate(st, v, s):
                if isinstance(it, ExcV):
                    yield st1, it
                    continue

                def body(st, x):
                    for st1, o in self.assign(st, fr, s.target, x):
                        if o is not None:
                            yield st1, o
                        else:
                            yield from self.block(st1, fr, s.body)
                for st2, o in self.loop(st1, fr, s, it, body, [s.target] + s.body):
                    if o is None:
                        yield from self.block(st2, fr, s.orelse)
                    elif o is BRK:
                        yield st2, None
                    else:
                        yield st2, o
        yield from self.bind(self.ev(st, fr, s.iter), k)

    def st_While(self, st, fr, s):
        for st1, o in self.while_loop(st, fr, s, lambda st: self.ev(st, fr, s.test), lambda st: self.block(st, fr, s.body), [s.test] + s.body):
            if o is None:
                yield from self.block(st1, fr, s.orelse)
            elif o is BRK:
                yield st1, None
            else:
                yield st1, o

    def iterate(self, st, v, node=None):
        """iterator of (state, It | ExcV)"""
        v = self.norm(v)
        if isinstance(v, It):
            yield st, v
            return
        if isinstance(v, T):
            yield st, It('tup', v.items)
            return
        if isinstance(v, K):
            o = v.obj
            if isinstance(o, (tuple, list)):
                yield st, It('tup', tuple(K(x) for x in o))
                return
            if isinstance(o, str):
                yield st, It('tup', tuple(K(x) for x in o))
                return
            if isinstance(o, dict):
                yield st, It('tup', tuple(K(x) for x in o))
                return
            if isinstance(o, (set, frozenset)):
                yield st, It('tup', tuple(K(x) for x in o))
                return
        if isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, ListCell):
                if c.kind == 'set':
                    yield st, It('lv', sperm(c.term), plain='id')
                    return
                yield st, It('lv', c.term, plain='id')
                return
            if isinstance(c, DictCell):
                yield st, It('le', c.term, plain='keys')
                return
            if isinstance(c, PyListCell):
                yield st, It('tup', c.items)
                return
            if isinstance(c, ObjCell):
                f, owner = self.find_attr(c.cls, '__iter__')
                if isinstance(f, types.FunctionType):
                    for st1, g in self.call(st, BM(v, f, owner), [], {}, node):
                        yield st1, g
                    return
        if isinstance(v, S):
            if v.sort == 'str':
                yield st, It('str', v.t, plain='chars')
                return
            if v.sort == 'val':
                for st1, b in self.fork(st, isQ(v.t)):
                    if b:
                        yield st1, It('lv', ofQ(v.t), plain='id')
                        continue
                    for st2, b2 in self.fork(st1, isM(v.t)):
                        if b2:
                            yield st2, It('le', ofM(v.t), plain='keys')
                            continue
                        for st3, b3 in self.fork(st2, isS(v.t)):
                            if b3:
                                yield st3, It('str', ofS(v.t), plain='chars')
                            else:
                                yield self.throw(st3, TypeError)
                return
        if isinstance(v, O):
            for kk in (v.cls.__mro__ if isinstance(v.cls, type) else (v.cls,)):
                if (kk, '__iter__') in self.meth_models:
                    yield from self.meth_models[(kk, '__iter__')](self, st, v, [], {})
                    return
        raise Unsupported(f'iteration over {v!r}', node)

    def elem(self, st, it, parts, idx):
        """Value of one element: iterator of (state, SV|ExcV)."""
        if it.plain == 'id':
            v = self.norm(S('val', parts[0]))
            yield st, v
        elif it.plain == 'keys':
            yield st, self.norm(S('val', parts[0]))
        elif it.plain == 'values':
            yield st, self.norm(S('val', parts[1]))
        elif it.plain == 'items':
            yield st, T([self.norm(S('val', parts[0])), self.norm(S('val', parts[1]))])
        elif it.plain == 'chars':
            yield st, self.norm(S('str', scons(parts[0], ())))
        elif it.view is not None:
            yield from it.view(st, parts, idx)
        else:
            raise Unsupported('element view')

    def _concrete_spine(self, t):
        """list of element parts if the list term has a known finite spine"""
        out = []
        if not isz(t):
            out = [tuple(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else (x,) for x in t]
            return out
        while z3.is_app(t) and t.decl().name() in ('scons', 'lcons', 'econs'):
            ch = t.children()
            out.append(tuple(ch[:-1]))
            t = ch[-1]
        if z3.is_app(t) and t.decl().name() in ('snil', 'lnil', 'enil'):
            return out
        return None

    def find_loop(self, node):
        key = id(node)
        if key not in self.loopmap:
            i = len(set(self.loopmap.values()))
            if i >= len(self.loops):
                if self.loops and len(self.loops) == 1 and self.cur.reuse_loops:
                    i = 0
                else:
                    return None
            self.loopmap[key] = i
        return self.loops[self.loopmap[key]]

    def loop(self, st, fr, node, it, body, nodes, acc=None):
        """for-loop over It.  body(st, elem) yields outcomes."""
        if it.dom == 'tup':
            def unroll(st, i):
                if i == len(it.term):
                    yield st, (it.tail if it.tail is not None else None)
                    return
                x = it.term[i]
                if it.view is not None:
                    src = it.view(st, (x,), K(i))
                else:
                    src = [(st, x)]
                for st1, v in src:
                    if isinstance(v, ExcV):
                        yield st1, v
                        continue
                    for st2, o in body(st1, v):
                        if o is None or o is CONT:
                            yield from unroll(st2, i + 1)
                        else:
                            yield st2, o
            yield from unroll(st, 0)
            return
        if it.dom in ('lv', 'le', 'str'):
            sp = self._concrete_spine(it.term)
            if sp is not None and len(sp) <= 64:
                def unroll2(st, i):
                    if i == len(sp):
                        yield st, (it.tail if it.tail is not None else None)
                        return
                    for st1, v in self.elem(st, it, sp[i], K(i + (0 if it.idx0 is None else it.idx0))):
                        if isinstance(v, ExcV):
                            yield st1, v
                            continue
                        for st2, o in body(st1, v):
                            if o is None or o is CONT:
                                yield from unroll2(st2, i + 1)
                            else:
                                yield st2, o
                yield from unroll2(st, 0)
                return
        if acc is not None and id(node) in self.msgnodes:
            # part of the message of an exception: what it gives does not matter
            spec = Loop((lambda v: [allstr(v.acc)]) if isinstance(getattr(node, 'elt', None), ast.JoinedStr) else (lambda v: []), name='message')
        else:
            spec = self.find_loop(node)
        if spec is None:
            raise Unsupported('loop without a contract', node)
        name = spec.name or f'loop at line {getattr(node, "lineno", "?")}'
        # ---- domain
        if it.dom == 'range':
            lo, hi = it.term
            all_ = (lo, hi)
        else:
            all_ = it.term
            lo = hi = None
        zs = {'lv': LV, 'le': LE, 'str': Str}.get(it.dom)
        empty_done = () if it.dom != 'range' else lo
        # ---- entry
        i0 = lo if it.dom == 'range' else (0 if it.idx0 is None else it.idx0)
        entry = LoopView(self, st, fr, all_, all_ if it.dom != 'range' else lo, (), i0, acc, None, self.cur_args, None)
        inv0 = And(*_aslist(spec.inv(entry)))
        self.oblige(f'{name}: invariant holds on entry', st, And(*entry.conds, inv0), node)
        counters = self.counters(st, fr, node)

        def counted(h, idx):
            # a variable that every iteration increments: found, and proved like the rest of the invariant
            out = []
            for n, v0 in counters.items():
                v = self.norm(h.frames[fr.fid][n])
                out.append(Eq(lift(v.obj if isinstance(v, K) else v.t, Int), lift(v0, Int) + (lift(idx, Int) - lift(i0, Int))))
            return out

        if spec.cut:
            key, cst = self.cut(st, fr, it)
            if key is not None:
                if (id(node), key) in self.cuts:
                    return          # explored already, from an entry state that covers this one
                if not self.quiet:
                    self.cuts.add((id(node), key))
                muts, st = st.muts, cst
                st.muts = set(muts)
                entry = LoopView(self, st, fr, all_, all_ if it.dom != 'range' else lo, (), i0, acc, None, self.cur_args, None)
                inv0 = And(*_aslist(spec.inv(entry)))
                st.assume(*entry.conds)
                st.assume(inv0)

        # ---- find what the body modifies
        def headstate(st, mods, kind):
            h = st.fork()
            self.havoc(h, fr, mods, spec)
            idx = fresh(Int, 'idx')
            h.assume(idx >= 0)
            if it.dom == 'range':
                rest = idx
                done = None
                h.assume(idx >= lo)
                if kind == 'step':
                    h.assume(idx < hi)
                else:
                    h.assume(z3.Or(idx == hi, z3.And(lift(hi, Int) < lo, idx == lo)))
                parts = None
                r2 = idx + 1
            else:
                done = fresh(zs, 'done')
                if kind == 'step':
                    parts = [fresh(s, 'x') for s in L._consargs(zs)]
                    rest = L._conscon(zs)(*parts)
                    r2 = parts[-1]
                else:
                    parts, rest, r2 = None, L.NIL[zs], None
                if it.dom == 'lv':
                    h.assume(Eq(all_, lapp(done, rest)))
                elif it.dom == 'str':
                    h.assume(Eq(all_, app(done, rest)))
                else:
                    h.assume(Eq(all_, eapp(done, rest)))
            v = LoopView(self, h, fr, all_, rest, done, idx, acc, None, self.cur_args, entry)
            inv = And(*_aslist(spec.inv(v)), *counted(h, idx))
            h.assume(*v.conds)
            h.assume(inv)
            return h, parts, r2, done, idx

        names = assigned_names(nodes)
        mods = (frozenset(names), self.mutated_locs(st, fr, nodes))
        for _ in range(6):
            self.quiet += 1
            try:
                h, parts, r2, done, idx = headstate(st, mods, 'step')
                h.muts = set()
                h.outer = () if parts is None else tuple(parts[:-1])
                seen = set()
                if self.feasible(h):
                    xs = self.elem(h, it, parts[:-1], S('int', idx)) if it.dom != 'range' else [(h, S('int', idx))]
                    for st1, x in xs:
                        if isinstance(x, ExcV):
                            continue
                        for st2, o in body(st1, x):
                            seen |= {l for l in st2.muts if l in st.heap}
            finally:
                self.quiet -= 1
            if seen <= mods[1]:
                break
            mods = (mods[0], mods[1] | seen)
        st.muts |= mods[1]
        # ---- preservation
        h, parts, r2, done, idx = headstate(st, mods, 'step')
        h.muts = set(st.muts)
        h.outer = () if parts is None else tuple(parts[:-1])
        if self.feasible(h):
            xs = self.elem(h, it, parts[:-1], S('int', idx)) if it.dom != 'range' else [(h, S('int', idx))]
            for st1, x in xs:
                if isinstance(x, ExcV):
                    st1.outer = st.outer
                    yield st1, x
                    continue
                for st2, o in body(st1, x):
                    st2.outer = st.outer
                    if o is None or o is CONT:
                        if it.dom == 'range':
                            d2 = None
                        elif it.dom == 'lv':
                            d2 = lapp(done, lcons(parts[0], ()))
                        elif it.dom == 'str':
                            d2 = app(done, scons(parts[0], ()))
                        else:
                            d2 = eapp(done, econs(parts[0], parts[1], ()))
                        v = LoopView(self, st2, fr, all_, r2, d2, idx + 1, acc, None, self.cur_args, entry)
                        inv = And(*_aslist(spec.inv(v)), *counted(st2, idx + 1))
                        self.oblige(f'{name}: invariant is preserved', st2, And(*v.conds, inv), node)
                    else:
                        yield st2, o
        # ---- exit
        x, *_ = headstate(st, mods, 'exit')
        x.muts = set(st.muts)
        if self.feasible(x):
            for n in assigned_names(nodes):
                pass
            yield x, it.tail

    def counters(self, st, fr, node):
        """local integers that a for loop does nothing with but to add one in
        every iteration: name -> value at entry"""
        if not isinstance(node, ast.For):
            return {}
        def jumps(n):
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                return False
            return isinstance(n, ast.Continue) or any(jumps(c) for c in ast.iter_child_nodes(n))
        if any(jumps(s) for s in node.body):
            return {}
        out = {}
        for s in node.body:
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and s.value.value == 1 and type(s.value.value) is int:
                n = s.target.id
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) \
                    and isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id and isinstance(s.value.right, ast.Constant) and type(s.value.right.value) is int and s.value.right.value == 1:
                n = s.targets[0].id
            else:
                continue
            if n in assigned_names([x for x in node.body if x is not s] + [node.target]):
                continue
            v = st.frames.get(fr.fid, {}).get(n)
            v = self.norm(v) if v is not None else None
            if isinstance(v, S) and v.sort == 'int':
                out[n] = v.t
            elif isinstance(v, K) and type(v.obj) is int:
                out[n] = v.obj
        return out

    def while_loop(self, st, fr, node, cond, body, nodes):
        # unroll while the condition is concretely decided
        spec = None
        cur = [(st, 0)]
        while cur:
            st1, i = cur.pop(0)
            outs = list(cond(st1)) if i < 40 else None
            if outs is not None and len(outs) == 1 and not isinstance(outs[0][1], ExcV):
                b = self.truth(outs[0][0], outs[0][1])
                if not isinstance(b, bool) and isz(b):
                    sb = z3.simplify(b)
                    b = True if z3.is_true(sb) else False if z3.is_false(sb) else b
                if b is False:
                    yield outs[0][0], None
                    continue
                if b is True and self.find_loop_peek(node) is None:
                    for st2, o in body(outs[0][0]):
                        if o is None or o is CONT:
                            cur.append((st2, i + 1))
                        else:
                            yield st2, o
                    continue
            spec = self.find_loop(node)
            if spec is None:
                raise Unsupported('loop without a contract', node)
            yield from self._while_inv(st1, fr, node, cond, body, nodes, spec)

    def find_loop_peek(self, node):
        key = id(node)
        if key in self.loopmap:
            return self.loops[self.loopmap[key]]
        i = len(set(self.loopmap.values()))
        return self.loops[i] if i < len(self.loops) else None

    def _while_inv(self, st, fr, node, cond, body, nodes, spec):
        name = spec.name or f'loop at line {getattr(node, "lineno", "?")}'
        entry = LoopView(self, st, fr, None, None, None, None, None, None, self.cur_args, None)
        inv0 = And(*_aslist(spec.inv(entry)))
        self.oblige(f'{name}: invariant holds on entry', st, And(*entry.conds, inv0), node)
        names = assigned_names(nodes)
        mods = (frozenset(names), self.mutated_locs(st, fr, nodes))

        def head(st):
            h = st.fork()
            self.havoc(h, fr, mods, spec)
            v = LoopView(self, h, fr, None, None, None, None, None, None, self.cur_args, entry)
            inv = And(*_aslist(spec.inv(v)))
            h.assume(*v.conds)
            h.assume(inv)
            return h
        for _ in range(6):
            self.quiet += 1
            seen = set()
            try:
                h = head(st)
                h.muts = set()
                if self.feasible(h):
                    for st1, c in cond(h):
                        seen |= {l for l in st1.muts if l in st.heap}
                        if isinstance(c, ExcV):
                            continue
                        for st2, b in self.fork(st1, self.truth(st1, c)):
                            if b:
                                for st3, o in body(st2):
                                    seen |= {l for l in st3.muts if l in st.heap}
            finally:
                self.quiet -= 1
            if seen <= mods[1]:
                break
            mods = (mods[0], mods[1] | seen)
        st.muts |= mods[1]
        h = head(st)
        h.muts = set(st.muts)
        if not self.feasible(h):
            return
        for st1, c in cond(h):
            if isinstance(c, ExcV):
                yield st1, c
                continue
            for st2, b in self.fork(st1, self.truth(st1, c)):
                if not b:
                    yield st2, None
                    continue
                for st3, o in body(st2):
                    if o is None or o is CONT:
                        v = LoopView(self, st3, fr, None, None, None, None, None, None, self.cur_args, entry)
                        inv = And(*_aslist(spec.inv(v)))
                        self.oblige(f'{name}: invariant is preserved', st3, And(*v.conds, inv), node)
                    else:
                        yield st3, o

    def cut(self, st, fr, it):
        """(signature, state that covers every state with this signature of which
        only the precondition and the invariant of the loop is known), or (None, None)"""
        if it.dom not in ('lv', 'le', 'str') or it.tail is not None or it.idx0 is not None or set(st.frames) != {fr.fid} or st.handling or st.pending or st.outer:
            return None, None
        acc = set()
        L._decls_in(lift(it.term, {'lv': LV, 'le': LE, 'str': Str}[it.dom]), acc, set())
        known = set()
        for f in self.start.pc:
            L._decls_in(f, known, set())
        for c in self.start.heap.values():
            for v in getattr(c, 'fields', {}).values():
                if isinstance(v, (S, O)):
                    L._decls_in(v.t, known, set())
            if isz(getattr(c, 'term', None)):
                L._decls_in(c.term, known, set())
        for v in self.start.frames[0].values():
            if isinstance(v, (S, O)):
                L._decls_in(v.t, known, set())
        if not {n for n in acc if '!' in n or n not in L.REGISTRY} <= known:
            return None, None
        for l, c in self.start.heap.items():
            if st.heap.get(l) is not c:
                return None, None        # a parameter was changed
        new = St()
        new.pc = list(self.start.pc)
        new.heap = dict(self.start.heap)
        changed, assigned = self.mutated_locs(st, fr, [fr.node]), assigned_names(fr.node.body)
        env, key, locs = {}, [it.term.sexpr() if isz(it.term) else repr(it.term)], {}
        for n, v in sorted(st.frames[fr.fid].items()):
            if v is None:
                env[n] = None
                key.append((n, None))
            elif isinstance(v, K):
                env[n] = v
                key.append((n, 'K', id(v.obj)))
                self.keep.append(v.obj)
            elif isinstance(v, S):
                if n not in assigned and any(isinstance(w, S) and w.t is v.t for w in self.start.frames[0].values()):
                    env[n] = v
                    key.append((n, 'param', repr(v.t)))
                else:
                    env[n] = S(v.sort, self.fresh_of(v.sort, n))
                    key.append((n, 'S', v.sort))
            elif isinstance(v, O):
                env[n] = v
                key.append((n, 'O', v.t.sexpr(), str(v.cls)))
                if not any(isinstance(w, O) and w.t is v.t for w in self.start.frames[0].values()):
                    return None, None
            elif isinstance(v, R):
                if v.loc in self.start.heap:
                    env[n] = v
                    key.append((n, 'param', v.loc))
                elif v.loc in locs:
                    env[n] = locs[v.loc][1]
                    key.append((n, 'same', locs[v.loc][0]))
                elif type(st.heap[v.loc]) in (ListCell, DictCell) and v.loc not in changed:       # never changed in place
                    env[n] = S('val', fresh(Val, n))
                    key.append((n, 'S', 'val'))
                elif type(st.heap[v.loc]) in (ListCell, DictCell):
                    c = st.heap[v.loc]
                    env[n] = self.alloc(new, type(c)(fresh(LV if isinstance(c, ListCell) else LE, n), c.kind, c.frozen))
                    locs[v.loc] = (n, env[n])
                    key.append((n, type(c).__name__, c.kind, c.frozen))
                else:
                    return None, None
            else:
                return None, None
        new.frames = {fr.fid: env}
        new.trace = st.trace
        return tuple(key), new

    def mutated_locs(self, st, fr, nodes):
        """containers that the nodes change by name, as a first guess of what a loop changes"""
        names = set()
        for n in (x for m in nodes for x in ast.walk(m)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'add', 'discard', 'reverse', 'sort'):
                names.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                names.add(n.value.id)
        out = set()
        for n in names:
            f = fr
            while f is not None and n not in st.frames.get(f.fid, {}):
                f = f.parent
            v = None if f is None else st.frames[f.fid][n]
            if isinstance(v, R) and isinstance(st.heap[v.loc], (ListCell, DictCell)):
                out.add(v.loc)
        return frozenset(out)

    def havoc(self, st, fr, mods, spec):
        names, locs = mods
        for n in names:
            f = fr
            while f is not None and n not in st.frames.get(f.fid, {}):
                f = f.parent
            if f is None:
                continue
            env = st.frames[f.fid]
            v = env[n]
            srt = None
            for rn, s_ in spec.havoc.items():
                if self.role(rn) == n:
                    srt = s_
            if srt == 'keep':
                continue
            if srt is not None:
                env[n] = self.wrap(st, self.fresh_of(srt, n), srt)
                continue
            if v is None:
                continue
            v = self.norm(v)
            if isinstance(v, K):
                o = v.obj
                if isinstance(o, bool):
                    env[n] = S('bool', fresh(Bool, n))
                elif isinstance(o, int):
                    env[n] = S('int', fresh(Int, n))
                elif isinstance(o, str):
                    env[n] = S('str', fresh(Str, n))
                else:
                    env[n] = S('val', fresh(Val, n))
            elif isinstance(v, S):
                env[n] = S(v.sort, fresh({'bool': Bool, 'int': Int, 'str': Str, 'val': Val}[v.sort], n))
            elif isinstance(v, T):
                env[n] = S('val', fresh(Val, n))
            elif isinstance(v, R):
                c = st.heap[v.loc]
                if isinstance(c, ListCell):
                    env[n] = self.alloc(st, ListCell(fresh(LV, n), c.kind))
                elif isinstance(c, DictCell):
                    env[n] = self.alloc(st, DictCell(fresh(LE, n), c.kind))
                else:
                    env[n] = None
            else:
                env[n] = None
        for l in locs:
            c = st.heap[l]
            if isinstance(c, ListCell):
                st.heap[l] = c.with_(term=fresh(LV, 'h'))
            elif isinstance(c, DictCell):
                st.heap[l] = c.with_(term=fresh(LE, 'h'))
            elif isinstance(c, ObjCell):
                nf = {}
                for k, v in c.fields.items():
                    nv = self.norm(v)
                    srt = spec.havoc.get('.' + k)
                    if srt == 'keep':
                        nf[k] = v
                    elif srt is not None:
                        nf[k] = self.wrap(st, self.fresh_of(srt, k), srt)
                    elif isinstance(nv, S):
                        nf[k] = S(nv.sort, fresh({'bool': Bool, 'int': Int, 'str': Str, 'val': Val}[nv.sort], k))
                    elif isinstance(nv, K) and isinstance(nv.obj, str):
                        nf[k] = S('str', fresh(Str, k))
                    elif isinstance(nv, (K, O)):
                        nf[k] = S('val', fresh(Val, k)) if isinstance(nv, K) else nv
                    else:
                        nf[k] = v
                st.heap[l] = ObjCell(c.cls, nf, c.exact, c.param)
            else:
                raise Unsupported('loop modifies a structure of known shape')

    def builtin_method(self, st, r, name, args, kwargs, node):
        from . import builtin_models
        yield from builtin_models.method(self, st, r, name, args, kwargs, node)


class PyDict(SV):
    """**kwargs of known keys."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = dict(items)


class Args:
    """Argument terms of a contract."""

    def __repr__(self):
        return repr({k: v for k, v in self.__dict__.items() if not k.startswith('_')})


def _aslist(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]
