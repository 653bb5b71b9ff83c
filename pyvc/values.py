"""Engine level values of the symbolic executor."""
from __future__ import annotations

import z3

from .logic import *  # noqa
from . import logic as L


class Unsupported(Exception):
    """The source uses something outside the verified subset."""

    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class SV:
    __slots__ = ()


class K(SV):
    """A concrete Python object."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return f'K({self.obj!r})'


class S(SV):
    """A symbolic term: sort in bool int str val."""
    __slots__ = ('sort', 't')

    def __init__(self, sort, t):
        if isinstance(t, SV):
            raise AssertionError('a value in place of a term')
        self.sort, self.t = sort, t

    def __repr__(self):
        return f'S({self.sort},{self.t})'


class T(SV):
    """Tuple of known length (cls set for namedtuples)."""
    __slots__ = ('items', 'cls')

    def __init__(self, items, cls=tuple):
        self.items, self.cls = tuple(items), cls

    def __repr__(self):
        return f'T{self.items}'


class R(SV):
    """Reference to a heap cell."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f'R({self.loc})'


class O(SV):
    """Opaque symbolic object of a known Python class (or duck type name)."""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls):
        self.t, self.cls = t, cls

    def __repr__(self):
        return f'O({self.t},{self.cls})'


class Clo(SV):
    """Nested function / lambda."""
    __slots__ = ('node', 'fr', 'defaults', 'kwdefaults')

    def __init__(self, node, fr, defaults, kwdefaults):
        self.node, self.fr, self.defaults, self.kwdefaults = node, fr, defaults, kwdefaults


class BM(SV):
    """Bound method of the repository's code (a real function) or closure."""
    __slots__ = ('recv', 'fn', 'owner')

    def __init__(self, recv, fn, owner=None):
        self.recv, self.fn, self.owner = recv, fn, owner


class BMeth(SV):
    """Bound method of a builtin type."""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Sup(SV):
    __slots__ = ('owner', 'recv')

    def __init__(self, owner, recv):
        self.owner, self.recv = owner, recv


class Model(SV):
    """A callable given by a Python model: fn(engine, st, args, kwargs)."""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class It(SV):
    """A (consumed once) iterable: symbolic list `term` of sort 'lv'/'le'/'str'
    or a 'range' (lo, hi) or a Python tuple of SVs ('tup'); `view` maps the
    parts of one element to outcomes; `tail` is the exception raised after the
    last element (generators), if any."""
    __slots__ = ('dom', 'term', 'view', 'tail', 'plain', 'idx0')

    def __init__(self, dom, term, view=None, tail=None, plain=None, idx0=None):
        self.dom, self.term, self.view, self.tail = dom, term, view, tail
        self.plain = plain      # 'id' | 'keys' | 'values' | 'items' when the view is structural
        self.idx0 = idx0


class ExcV:
    """Outcome: an exception is raised (reference to an exception cell)."""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Brk:
    pass


class Cont:
    pass


BRK, CONT = Brk(), Cont()


# --------------------------------------------------------------- cells
class Cell:
    pass


class ListCell(Cell):
    __slots__ = ('term', 'frozen', 'param', 'kind')

    def __init__(self, term, kind='list', frozen=False, param=False):
        self.term, self.kind, self.frozen, self.param = term, kind, frozen, param

    def with_(self, **kw):
        c = ListCell(self.term, self.kind, self.frozen, self.param)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class DictCell(Cell):
    __slots__ = ('term', 'frozen', 'param', 'kind')

    def __init__(self, term, kind='dict', frozen=False, param=False):
        self.term, self.kind, self.frozen, self.param = term, kind, frozen, param

    def with_(self, **kw):
        c = DictCell(self.term, self.kind, self.frozen, self.param)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class PyListCell(Cell):
    """A list / dict of engine values with known shape (holds closures etc)."""
    __slots__ = ('items', 'kind', 'frozen', 'param')

    def __init__(self, items, kind='pylist'):
        self.items, self.kind, self.frozen, self.param = tuple(items), kind, False, False


class ObjCell(Cell):
    __slots__ = ('cls', 'fields', 'exact', 'frozen', 'param')

    def __init__(self, cls, fields, exact=True, param=False):
        self.cls, self.fields, self.exact, self.frozen, self.param = cls, dict(fields), exact, False, param

    def with_field(self, name, v):
        c = ObjCell(self.cls, self.fields, self.exact, self.param)
        c.fields[name] = v
        return c


class OtherError(Exception):
    """Stands for any exception that is an Exception but not a MarshError."""


class St:
    """Symbolic state (path condition, heap, frames)."""
    __slots__ = ('pc', 'heap', 'frames', 'handling', 'muts', 'pending', 'dead', 'trace', 'outer')

    def __init__(self):
        self.pc = []
        self.heap = {}
        self.frames = {}
        self.handling = ()
        self.muts = set()
        self.pending = {}
        self.trace = ()
        self.outer = ()      # the element (key, value) of the innermost enclosing loop

    def fork(self):
        s = St.__new__(St)
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.handling = self.handling
        s.muts = set(self.muts)
        s.pending = dict(self.pending)
        s.trace = self.trace
        s.outer = self.outer
        return s

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.assume(*c)
            elif c is True:
                continue
            elif isinstance(c, bool):
                self.pc.append(z3.BoolVal(False))
            else:
                self.pc.append(c)
        return self
