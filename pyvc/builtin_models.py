"""Models of the Python built-ins used by the verified code.  They are part of
the trusted base (the semantics of the language), see DESIGN.md."""
from __future__ import annotations

import builtins
import inspect
import os
import types

import z3

from . import logic as L
from .logic import *  # noqa
from .logic import And, Or, Not, Eq, Ne, Ite, Implies
from .lib import *  # noqa
from .values import *  # noqa
from .values import St, K, S, T, R, O, Clo, BM, BMeth, Sup, Model, It, ExcV
from .lib import sapp as app, slapp as lapp  # noqa

# ------------------------------------------------------------ uninterpreted
is_space = Unint('is_space', [Int], Bool, py=lambda c: chr(c).isspace(), doc='str.isspace of one character',
                 facts=lambda f: [('ascii', z3.And(*[f(z3.IntVal(ord(ch))) == ch.isspace() for ch in ' \t\n\r\x0b\x0c"\'\\.,:=+@~()[]{}/*_-']))])
sp_all = Rec('sp_all', [Str], Bool, lambda: True, lambda c, r: And(is_space(c), sp_all(r)))
to_lower = Unint('to_lower', [Str], Str, py=lambda s: L.S(L.unS(s).lower()), doc='str.lower')


def _int_of(s, by=False):
    try:
        return int(bytes(s) if by else L.unS(s))
    except ValueError:
        return 0


def _int_ok(s, by=False):
    try:
        int(bytes(s) if by else L.unS(s))
        return True
    except ValueError:
        return False


def _fl_of(s, by=False):
    try:
        return float(bytes(s) if by else L.unS(s))
    except ValueError:
        return 0.0


def _fl_ok(s, by=False):
    try:
        float(bytes(s) if by else L.unS(s))
        return True
    except ValueError:
        return False


int_of = Unint('int_of', [Str], Int, py=_int_of, doc='int(text)')
int_ok = Unint('int_ok', [Str], Bool, py=_int_ok, doc='int(text) does not raise ValueError')
int_okb = Unint('int_okb', [Str], Bool, py=lambda b: _int_ok(b, True), doc='int(bytes) does not raise ValueError')
int_ofb = Unint('int_ofb', [Str], Int, py=lambda b: _int_of(b, True), doc='int(bytes)')
fl_okb = Unint('fl_okb', [Str], Bool, py=lambda b: _fl_ok(b, True), doc='float(bytes) does not raise ValueError')
fl_ofb = Unint('fl_ofb', [Str], Fl, py=lambda b: _fl_of(b, True), doc='float(bytes)')


def opaque_num(e, st, v, sort, ok, of):
    """int() / float() of what is no str, bool, int or float"""
    for st1, b in e.fork(st, isY(v.t)):
        if b:
            for st2, b2 in e.fork(st1, ok(ofY(v.t))):
                yield (st2, S(sort, of(ofY(v.t)))) if b2 else e.throw(st2, ValueError)
            continue
        e.assumptions.add('int() and float() of an object that is no str, bytes, bool, int or float raise TypeError')
        yield e.throw(st1, TypeError)


fl_of = Unint('fl_of', [Str], Fl, py=_fl_of, doc='float(text)')
fl_ok = Unint('fl_ok', [Str], Bool, py=_fl_ok, doc='float(text) does not raise ValueError')
type_name = Unint('type_name', [Val], Str, py=lambda v: (), doc='name of the type of a value (messages only)')

lrstrip = None


def sufx(p, s):
    """s ends with the one-character string p"""
    return And(Not(empty(s)), Eq(slast(s), sh(p)))


def install(e):
    m = e.models

    def model(*objs):
        def deco(f):
            for o in objs:
                m[o] = f
            return f
        return deco

    @model(len)
    def _len(e, st, args, kw):
        v = e.norm(args[0])
        if isinstance(v, K):
            yield st, K(len(v.obj))
        elif isinstance(v, T):
            yield st, K(len(v.items))
        elif isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, ListCell):
                yield st, e.norm(S('int', llen(c.term)))
            elif isinstance(c, DictCell):
                yield st, e.norm(S('int', elen(c.term)))
            elif isinstance(c, PyListCell):
                yield st, K(len(c.items))
            else:
                f, owner = e.find_attr(c.cls, '__len__')
                yield from e.call(st, BM(v, f, owner), [], {})
        elif isinstance(v, S) and v.sort == 'str':
            yield st, e.norm(S('int', slen(v.t)))
        elif isinstance(v, S) and v.sort == 'val':
            for st1, b in e.fork(st, isQ(v.t)):
                if b:
                    yield st1, S('int', llen(ofQ(v.t)))
                    continue
                for st2, b2 in e.fork(st1, isM(v.t)):
                    if b2:
                        yield st2, S('int', elen(ofM(v.t)))
                        continue
                    for st3, b3 in e.fork(st2, isS(v.t)):
                        if b3:
                            yield st3, S('int', slen(ofS(v.t)))
                        else:
                            raise Unsupported('len of unknown value')
        else:
            raise Unsupported(f'len of {v!r}')

    def classes_of(e, c):
        if isinstance(c, K):
            return list(c.obj) if isinstance(c.obj, tuple) else [c.obj]
        if isinstance(c, T):
            return [x.obj for x in c.items]
        raise Unsupported('isinstance with a symbolic class')

    def isinst(e, st, v, cls):
        """Bool for isinstance(v, cls)"""
        import marsh
        v = e.norm(v)
        if isinstance(v, K):
            return isinstance(v.obj, cls)
        if isinstance(v, T):
            return issubclass(v.cls, cls)
        if isinstance(v, R):
            c = st.heap[v.loc]
            if isinstance(c, ObjCell):
                if issubclass(c.cls, cls):
                    return True
                if c.exact or not issubclass(cls, c.cls):
                    return False
                raise Unsupported('isinstance of an inexact object')
            if isinstance(c, ListCell):
                return issubclass({'list': list, 'set': set}.get(c.kind, list), cls)
            if isinstance(c, DictCell):
                return issubclass(dict, cls)
            if isinstance(c, PyListCell):
                return issubclass(list, cls)
        if isinstance(v, S) and v.sort in ('str', 'bool', 'int', 'float', 'bytes'):
            return issubclass({'str': str, 'bool': bool, 'int': int, 'float': float, 'bytes': bytes}[v.sort], cls)
        if isinstance(v, S) and v.sort == 'val':
            t = v.t
            import numbers
            if cls is object:
                return True
            tab = [(type(None), isN), (bool, isB), (int, isI), (float, isF), (str, isS), (bytes, isY)]
            if cls in (bool, int, float, str, bytes, type(None), numbers.Number, numbers.Complex):
                return Or(*[f(t) for ty, f in tab if issubclass(ty, cls)])
            if cls is list:
                return And(isQ(t), Eq(kindQ(t), LIST))
            if cls is tuple:
                return And(isQ(t), Eq(kindQ(t), TUPLE))
            if cls is dict:
                return And(isM(t), Eq(kindM(t), DICT))
            hk = ('isinstance', cls)
            if hk in e.models:
                return e.models[hk](e, st, v)
            raise Unsupported(f'isinstance of a value against {cls}')
        if isinstance(v, (Clo, BM, Model)):
            if cls in (str, int, float, bool, bytes, list, tuple, dict, type(None)):
                return False
        if isinstance(v, O):
            if isinstance(v.cls, type):
                if issubclass(v.cls, cls):
                    return True
                if ('isinstance', cls) in e.models:
                    return e.models[('isinstance', cls)](e, st, v)
                return False
            if ('isinstance', cls) in e.models:
                return e.models[('isinstance', cls)](e, st, v)
        raise Unsupported(f'isinstance of {v!r}')
    e.isinst = isinst

    @model(isinstance)
    def _isinstance(e, st, args, kw):
        yield st, e.norm(S('bool', Or(*[isinst(e, st, args[0], c) for c in classes_of(e, args[1])])))

    @model(issubclass)
    def _issubclass(e, st, args, kw):
        a, b = e.norm(args[0]), args[1]
        if isinstance(a, K):
            try:
                yield st, K(issubclass(a.obj, tuple(classes_of(e, b))))
            except TypeError:
                yield e.throw(st, TypeError)
            return
        raise Unsupported('issubclass of a symbolic class')

    @model(type)
    def _type(e, st, args, kw):
        v = e.norm(args[0])
        if isinstance(v, K):
            yield st, K(type(v.obj))
        elif isinstance(v, T):
            yield st, K(v.cls)
        elif isinstance(v, S) and v.sort != 'val':
            yield st, K({'str': str, 'bool': bool, 'int': int, 'float': float, 'bytes': bytes}[v.sort])
        elif isinstance(v, R) and isinstance(st.heap[v.loc], ObjCell):
            yield st, K(st.heap[v.loc].cls)
        elif isinstance(v, S) and not e.feasible(st, [Not(Or(isB(v.t), isI(v.t), isF(v.t), isS(v.t)))]):
            # a value known to be primitive (instances of subclasses of the primitive types are taken to be of the base type)
            for ty, f in ((bool, isB), (int, isI), (float, isF), (str, isS)):
                st1 = st.fork().assume(f(v.t))
                if e.feasible(st1):
                    yield st1, K(ty)
        else:
            yield st, O(fresh(Val, 'type'), 'type')

    def seqbuild(kind):
        def f(e, st, args, kw):
            if not args:
                yield st, (T(()) if kind == 'tuple' else e.new_list(st, (), kind))
                return
            for st1, it in e.iterate(st, args[0]):
                if isinstance(it, ExcV):
                    yield st1, it
                    continue
                if it.dom == 'tup' and it.view is None:
                    if it.tail is not None:
                        yield st1, it.tail
                    elif kind == 'tuple':
                        yield st1, T(it.term)
                    else:
                        yield st1, e.new_list(st1, e._lv(st1, it.term), kind)
                    continue
                t = e.it_term(it)
                if t is None:
                    raise Unsupported(f'{kind}() of an iterable without a list form')
                if it.tail is not None:
                    yield st1, it.tail
                elif kind == 'tuple':
                    yield st1, S('val', vseq(TUPLE, t))
                else:
                    yield st1, e.new_list(st1, t, kind)
        return f
    m[tuple] = seqbuild('tuple')
    m[list] = seqbuild('list')
    m[set] = seqbuild('set')
    m[frozenset] = seqbuild('set')

    @model(dict)
    def _dict(e, st, args, kw):
        from .engine import PyDict
        base = ()
        if args:
            v = e.norm(args[0])
            if isinstance(v, PyDict):
                for n, x in v.items.items():
                    base = eset(base, ('S', L.S(n)), e.to_val(st, x))
            elif isinstance(v, It):
                t = v.term if v.dom == 'le' and v.plain == 'items' else None
                if v.dom == 'lv' and L.isz(v.term) and z3.is_app(v.term) and v.term.decl().name() == 'lzip':
                    t = epairs(v.term, ())
                if t is None:
                    raise Unsupported('dict of iterable')
                base = t
            else:
                cs, t = e.coerce(st, v, 'le')
                outs = e.fork(st, And(*cs))
                for st1, b in outs:
                    if not b:
                        raise Unsupported('dict of unknown value')
                    st = st1
                base = t
        for n, x in kw.items():
            if n == '**':
                cs, t = e.coerce(st, x, 'le')
                if not all(c is True for c in cs):
                    raise Unsupported('dict(**x)')
                for st1, b in e.fork(st, allstr(ekeys(t))):
                    if not b:
                        yield e.throw(st1, TypeError)
                        continue
                    if len(kw) > 1:
                        raise Unsupported('dict(**x, ...)')
                    yield st1, e.new_dict(st1, eupdate(base, t))
                return
            base = eset(base, ('S', L.S(n)), e.to_val(st, x))
        yield st, e.new_dict(st, base)

    import typing

    @model(typing.cast)
    def _cast(e, st, args, kw):
        yield st, args[1]

    @model(str)
    def _str(e, st, args, kw):
        if not args:
            yield st, K('')
            return
        v = e.norm(args[0])
        if isinstance(v, K) and isinstance(v.obj, (str, int, float, bool, type(None))):
            yield st, K(str(v.obj))
        elif isinstance(v, S) and v.sort == 'str':
            yield st, v
        elif isinstance(v, S) and v.sort in ('val', 'int', 'bool', 'float'):
            yield st, e.norm(S('str', py_str(e.to_val(st, v))))
        elif isinstance(v, (R, T, O, Clo, BM)):
            yield st, S('str', fresh(Str, 'str'))
        else:
            yield st, S('str', fresh(Str, 'str'))

    @model(str.__str__)
    def _str_str(e, st, args, kw):
        v = e.norm(args[0])
        if isinstance(v, K):
            if isinstance(v.obj, str):
                yield st, v
            else:
                yield e.throw(st, TypeError)
            return
        if not isinstance(v, S):
            raise Unsupported('str.__str__ of an object')
        if v.sort == 'str':
            yield st, v
            return
        t = e.to_val(st, v)
        for st1, b in e.fork(st, isS(t)):
            if b:
                yield st1, e.norm(S('str', ofS(t)))
            else:
                yield e.throw(st1, TypeError)

    @model(int)
    def _int(e, st, args, kw):
        v = e.norm(args[0])
        if isinstance(v, K):
            try:
                yield st, K(int(v.obj))
            except Exception as err:
                yield e.throw(st, type(err))
            return
        if isinstance(v, S) and v.sort in ('int',):
            yield st, v
            return
        if isinstance(v, S) and v.sort == 'bool':
            yield st, S('int', Ite(v.t, 1, 0))
            return
        if isinstance(v, S) and v.sort == 'float':
            v = S('val', e.to_val(st, v))
        cs, t = e.coerce(st, v, 'str')
        if not cs:
            for st1, b in e.fork(st, int_ok(t)):
                if b:
                    yield st1, e.norm(S('int', int_of(t)))
                else:
                    yield e.throw(st1, ValueError)
            return
        if isinstance(v, S) and v.sort == 'val':
            for st1, b in e.fork(st, isS(v.t)):
                if b:
                    for st2, b2 in e.fork(st1, int_ok(ofS(v.t))):
                        if b2:
                            yield st2, S('int', int_of(ofS(v.t)))
                        else:
                            yield e.throw(st2, ValueError)
                    continue
                for st2, b2 in e.fork(st1, isI(v.t)):
                    if b2:
                        yield st2, S('int', ofI(v.t))
                        continue
                    for st3, b3 in e.fork(st2, isB(v.t)):
                        if b3:
                            yield st3, S('int', Ite(ofB(v.t), 1, 0))
                            continue
                        for st4, b4 in e.fork(st3, isF(v.t)):
                            if b4:
                                f = ofF(v.t)
                                for st5, b5 in e.fork(st4, fl_finite(f)):
                                    if b5:
                                        yield st5, S('int', fl_trunc(f))
                                    else:
                                        for st6, b6 in e.fork(st5, fl_nan(f)):
                                            yield e.throw(st6, ValueError if b6 else OverflowError)
                            else:
                                yield from opaque_num(e, st4, v, 'int', int_okb, int_ofb)
            return
        raise Unsupported(f'int of {v!r}')

    @model(float)
    def _float(e, st, args, kw):
        v = e.norm(args[0])
        if isinstance(v, K):
            try:
                yield st, K(float(v.obj))
            except Exception as err:
                yield e.throw(st, type(err))
            return
        if isinstance(v, S) and v.sort == 'float':
            yield st, v
            return
        if isinstance(v, S) and v.sort in ('int', 'bool'):
            v = S('val', e.to_val(st, v))
        cs, t = e.coerce(st, v, 'str')
        if not cs:
            for st1, b in e.fork(st, fl_ok(t)):
                if b:
                    yield st1, S('float', fl_of(t))
                else:
                    yield e.throw(st1, ValueError)
            return
        if isinstance(v, S) and v.sort == 'val':
            for st1, b in e.fork(st, isS(v.t)):
                if b:
                    for st2, b2 in e.fork(st1, fl_ok(ofS(v.t))):
                        if b2:
                            yield st2, S('float', fl_of(ofS(v.t)))
                        else:
                            yield e.throw(st2, ValueError)
                    continue
                for st2, b2 in e.fork(st1, isF(v.t)):
                    if b2:
                        yield st2, S('float', ofF(v.t))
                        continue
                    for st3, b3 in e.fork(st2, isB(v.t)):
                        if b3:
                            yield st3, S('float', Ite(ofB(v.t), lift(1.0, Fl), lift(0.0, Fl)))
                            continue
                        for st4, b4 in e.fork(st3, isI(v.t)):
                            if b4:
                                for st5, b5 in e.fork(st4, fl_int_ok(ofI(v.t))):
                                    if b5:
                                        yield st5, S('float', fl_of_int(ofI(v.t)))
                                    else:
                                        yield e.throw(st5, OverflowError)
                            else:
                                yield from opaque_num(e, st4, v, 'float', fl_okb, fl_ofb)
            return
        raise Unsupported(f'float of {v!r}')

    @model(bool)
    def _bool(e, st, args, kw):
        yield st, (K(False) if not args else e.norm(S('bool', e.truth(st, args[0]))))

    def anyall(isany):
        def f(e, st, args, kw):
            for st1, it in e.iterate(st, args[0]):
                if isinstance(it, ExcV):
                    yield st1, it
                    continue
                if it.dom == 'tup' and it.view is None:
                    def go(st, i):
                        if i == len(it.term):
                            yield st, (it.tail if it.tail is not None else K(not isany))
                            return
                        for st2, b in e.fork(st, e.truth(st, it.term[i])):
                            if b == isany:
                                yield st2, K(isany)
                            else:
                                yield from go(st2, i + 1)
                    yield from go(st1, 0)
                    continue
                t = e.it_term(it)
                if t is None or it.tail is not None:
                    raise Unsupported('any/all of an iterable without a list form')
                yield st1, e.norm(S('bool', lany(t) if isany else lall(t)))
        return f
    m[any] = anyall(True)
    m[all] = anyall(False)

    @model(filter)
    def _filter(e, st, args, kw):
        f, it0 = args
        for st1, it in e.iterate(st, it0):
            if isinstance(it, ExcV):
                yield st1, it
                continue
            if isinstance(f, K) and f.obj is None:
                t = e.it_term(it) if it.dom != 'tup' else e._lv(st1, it.term)
                if t is None:
                    raise Unsupported('filter')
                yield st1, It('lv', ltruthy(t), plain='id', tail=it.tail)
            else:
                raise Unsupported('filter with a function')

    @model(map)
    def _map(e, st, args, kw):
        f, it0 = args
        for st1, it in e.iterate(st, it0):
            if isinstance(it, ExcV):
                yield st1, it
                continue
            if it.dom == 'tup':
                # eager
                def go(st, i, acc):
                    if i == len(it.term):
                        yield st, It('tup', tuple(acc), tail=it.tail)
                        return
                    for st2, v in e.call(st, f, [it.term[i]], {}):
                        if isinstance(v, ExcV):
                            yield st2, It('tup', tuple(acc), tail=v)
                        else:
                            yield from go(st2, i + 1, acc + [v])
                yield from go(st1, 0, [])
                continue
            mf = (e.map_models.get(_fkey(f)) if isinstance(_fkey(f), (type, types.FunctionType)) else None) or map_of_contract(e, _fkey(f))
            t = e.it_term(it)
            if mf is not None and t is not None and it.tail is None:
                yield st1, It('lv', mf(t), plain='id')
                continue

            def view(st, parts, idx, it=it):
                for st2, x in e.elem(st, it, parts, idx):
                    if isinstance(x, ExcV):
                        yield st2, x
                    else:
                        yield from e.call(st2, f, [x], {})
            yield st1, It(it.dom, it.term, view=view, tail=it.tail, idx0=it.idx0)

    def map_of_contract(e, fn):
        """the list function [fn(x) for x in xs] of a function whose contract
        gives its result for every argument"""
        try:
            c = e.contracts.get(fn)
        except TypeError:
            return None
        if c is None or not getattr(c, 'mapped', None):
            return None
        e.used_contracts[c.name] = c
        return c.mapped

    def _fkey(f):
        return f.obj if isinstance(f, K) else None
    e.map_models = {str: lstr}

    @model(enumerate)
    def _enumerate(e, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', K(0))
        for st1, it in e.iterate(st, args[0]):
            if isinstance(it, ExcV):
                yield st1, it
                continue
            if it.dom == 'tup' and isinstance(start, K) and it.view is None:
                yield st1, It('tup', tuple(T([K(i + start.obj), x]) for i, x in enumerate(it.term)), tail=it.tail)
                continue
            if not isinstance(start, K):
                raise Unsupported('enumerate start')

            def view(st, parts, idx, it=it):
                for st2, x in e.elem(st, it, parts, idx):
                    yield st2, (x if isinstance(x, ExcV) else T([idx, x]))
            yield st1, It(it.dom, it.term, view=view, tail=it.tail, idx0=start.obj)

    @model(range)
    def _range(e, st, args, kw):
        a = [e.norm(x) for x in args]
        if all(isinstance(x, K) for x in a):
            yield st, It('tup', tuple(K(i) for i in range(*[x.obj for x in a])))
            return
        lo, hi = (0, e.coerce(st, a[0], 'int')[1]) if len(a) == 1 else (e.coerce(st, a[0], 'int')[1], e.coerce(st, a[1], 'int')[1])
        if len(a) > 2:
            raise Unsupported('range step')
        yield st, It('range', (lo, hi))

    @model(reversed)
    def _reversed(e, st, args, kw):
        v = e.norm(args[0])
        for st1, it in e.iterate(st, v):
            if isinstance(it, ExcV):
                yield st1, it
            elif it.dom == 'tup' and it.view is None:
                yield st1, It('tup', tuple(reversed(it.term)))
            elif it.dom == 'lv' and it.plain == 'id':
                yield st1, It('lv', lrev(it.term, ()), plain='id')
            elif it.dom == 'le' and it.plain in ('keys', 'values', 'items'):
                yield st1, It('le', erev(it.term, ()), plain=it.plain)
            else:
                raise Unsupported('reversed')

    @model(zip)
    def _zip(e, st, args, kw):
        if kw:
            raise Unsupported('zip')

        def go(st, i, its):
            if i < len(args):
                for st1, it in e.iterate(st, args[i]):
                    if isinstance(it, ExcV):
                        yield st1, it
                    else:
                        yield from go(st1, i + 1, its + [it])
                return
            if any(it.tail is not None for it in its):
                raise Unsupported('zip of failing iterators')
            if all(it.dom == 'tup' and it.view is None for it in its):
                yield st, It('tup', tuple(T(x) for x in zip(*[it.term for it in its])))
                return
            ts = [e.it_term(it) if it.dom != 'tup' else e._lv(st, it.term) if it.view is None else None for it in its]
            if len(ts) == 2 and None not in ts:
                def view(st, parts, idx):
                    p = ofQ(parts[0])
                    yield st, T([e.norm(S('val', lh(p))), e.norm(S('val', lh(lt(p))))])
                yield st, It('lv', lzip(*ts), view=view)
                return
            raise Unsupported('zip')
        yield from go(st, 0, [])

    @model(getattr)
    def _getattr(e, st, args, kw):
        n = e.norm(args[1])
        if not isinstance(n, K):
            raise Unsupported('getattr with a symbolic name')
        for st1, v in e.getattr(st, args[0], n.obj):
            if isinstance(v, ExcV) and len(args) > 2 and st1.heap[v.ref.loc].cls is AttributeError:
                yield st1, args[2]
            else:
                yield st1, v

    @model(hasattr)
    def _hasattr(e, st, args, kw):
        n = e.norm(args[1])
        for st1, v in e.getattr(st, args[0], n.obj):
            if isinstance(v, ExcV):
                if st1.heap[v.ref.loc].cls is AttributeError:
                    yield st1, K(False)
                else:
                    yield st1, v
            else:
                yield st1, K(True)

    @model(next)
    def _next(e, st, args, kw):
        it = args[0]
        if isinstance(it, It) and it.dom == 'tup' and it.view is None:
            if it.term:
                x = it.term[0]
                it.term = it.term[1:]
                yield st, x
                return
        v = e.norm(it)
        if not (isinstance(v, R) and isinstance(st.heap[v.loc], ListCell) and st.heap[v.loc].kind == 'iter'):
            raise Unsupported('next')
        t = st.heap[v.loc].term
        for st1, b in e.fork(st, empty(t)):
            if not b:
                e.check_param(st1, v, None)
                e.mutate(st1, v, lt(t))
                yield st1, e.norm(S('val', lh(t)))
            elif len(args) > 1:
                yield st1, args[1]
            else:
                yield e.throw(st1, StopIteration)

    @model(print)
    def _print(e, st, args, kw):
        yield st, K(None)

    @model(repr)
    def _repr(e, st, args, kw):
        yield st, S('str', fresh(Str, 'repr'))

    @model(callable)
    def _callable(e, st, args, kw):
        v = e.norm(args[0])
        if isinstance(v, K):
            yield st, K(callable(v.obj))
            return
        raise Unsupported('callable')

    @model(min, max)
    def _minmax(e, st, args, kw):
        raise Unsupported('min/max')

    def _osenv(e, st, args, kw):
        yield st, K(None)
    m[os.environ.get] = None
    del m[os.environ.get]


# -------------------------------------------------------- builtin methods
def method(e, st, r, name, args, kwargs, node):
    r = e.norm(r)
    kind = None
    if isinstance(r, R):
        c = st.heap[r.loc]
        if isinstance(c, ListCell):
            if ('list', name) in e.meth_models:
                yield from e.meth_models[('list', name)](e, st, r, args, kwargs)
                return
            yield from _list_method(e, st, r, c, name, args, kwargs, node)
            return
        if isinstance(c, DictCell):
            yield from _dict_method(e, st, r, c, c.term, name, args, kwargs, node)
            return
        if isinstance(c, ObjCell):
            if name == '__init__':
                yield st, K(None)
                return
        if isinstance(c, PyListCell):
            if name == 'append':
                st.heap[r.loc] = PyListCell(c.items + (args[0],))
                st.muts.add(r.loc)
                yield st, K(None)
                return
        raise Unsupported(f'method {name} of {type(c).__name__}', node)
    if isinstance(r, T):
        if name == '_replace' and hasattr(r.cls, '_fields'):
            items = list(r.items)
            for k, v in kwargs.items():
                items[r.cls._fields.index(k)] = v
            yield st, T(items, r.cls)
            return
        if name in ('index', 'count'):
            raise Unsupported(f'tuple.{name}', node)
    if isinstance(r, K):
        if isinstance(r.obj, str):
            kind = 'str'
        elif isinstance(r.obj, dict) or isinstance(r.obj, (tuple, list)):
            if name in ('get',) and all(isinstance(e.norm(a), K) for a in args):
                yield st, K(r.obj.get(*[e.norm(a).obj for a in args]))
                return
            if name in ('items', 'keys', 'values') and isinstance(r.obj, dict):
                yield st, It('tup', tuple((T([K(x[0]), K(x[1])]) if name == 'items' else K(x)) for x in getattr(r.obj, name)()))
                return
    if isinstance(r, S) and r.sort == 'str':
        kind = 'str'
    if isinstance(r, S) and r.sort == 'val' and ('val', name) in e.meth_models:
        yield from e.meth_models[('val', name)](e, st, r, args, kwargs)
        return
    if kind is None and isinstance(r, S) and r.sort == 'val':
        if name in ('keys', 'values', 'items', 'get', 'pop', 'copy', 'update'):
            for st1, b in e.fork(st, isM(r.t)):
                if b:
                    if name in ('pop', 'update', 'setdefault', 'clear', 'popitem'):
                        e.oblige('frame: an input container is not modified', st1, False, node)
                        raise Unsupported('input container modified', node)
                    yield from _dict_method(e, st1, None, None, ofM(r.t), name, args, kwargs, node)
                else:
                    yield e.throw(st1, AttributeError)
            return
        if name in ('lower', 'startswith', 'endswith', 'strip', 'split', 'isspace', 'join', 'lstrip', 'rstrip', 'upper', 'partition', 'encode'):
            for st1, b in e.fork(st, isS(r.t)):
                if b:
                    yield from _str_method(e, st1, S('str', ofS(r.t)), name, args, kwargs, node)
                else:
                    yield e.throw(st1, AttributeError)
            return
        if name in ('append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'clear'):
            e.oblige('frame: an input container is not modified', st, False, node)
            raise Unsupported('input container modified', node)
    if isinstance(r, S) and r.sort == 'float' and name == 'is_integer':
        yield st, e.norm(S('bool', fl_isint(r.t)))
        return
    if kind == 'str':
        yield from _str_method(e, st, r, name, args, kwargs, node)
        return
    if isinstance(r, It):
        raise Unsupported(f'method {name} of iterator', node)
    raise Unsupported(f'method {name} of {r!r}', node)


def _str_method(e, st, r, name, args, kwargs, node):
    t = e.coerce(st, r, 'str')[1]
    args = [e.norm(a) for a in args]
    if isinstance(r, K) and all(isinstance(a, K) for a in args) and not kwargs:
        try:
            v = getattr(r.obj, name)(*[a.obj for a in args])
        except Exception as err:
            yield e.throw(st, type(err))
            return
        yield st, K(v)
        return
    if name == 'join':
        for st1, it in e.iterate(st, args[0]):
            if isinstance(it, ExcV):
                yield st1, it
                continue
            if it.tail is not None:
                yield st1, it.tail
                continue
            if it.dom == 'tup' and it.view is None:
                lv = e._lv(st1, it.term)
            else:
                lv = e.it_term(it)
            if lv is None:
                raise Unsupported('join of an iterable without a list form', node)
            if not isz(lv) or e._concrete_spine(lv) is not None:
                sp = [x[0] for x in e._concrete_spine(lv)] if isz(lv) else list(lv)
                out, ok = (), True
                for i, x in reversed(list(enumerate(sp))):
                    ok = And(ok, isS(x))
                    p = ofS(x)
                    out = app(p, out) if not (not isz(out) and out == ()) else p
                    if i:
                        out = app(t, out)
                for st2, b in e.fork(st1, ok):
                    if b:
                        yield st2, e.norm(S('str', out))
                    else:
                        yield e.throw(st2, TypeError)
                continue
            for st2, b in e.fork(st1, allstr(lv)):
                if b:
                    yield st2, e.norm(S('str', sjoin(lv, t) if not (not isz(t) and t == ()) else jcat(lv)))
                else:
                    yield e.throw(st2, TypeError)
        return
    if name in ('startswith', 'endswith') and len(args) == 1:
        cs, p = e.coerce(st, args[0], 'str')
        if cs:
            raise Unsupported(f'str.{name}', node)
        one = _single(e, st, p)
        if name == 'startswith':
            sp = _spine(p)
            if sp is not None:
                c, x = True, t
                for ch in sp:
                    c = And(c, Not(empty(x)), Eq(sh(x), ch))
                    x = stl(x)
                yield st, e.norm(S('bool', c))
                return
            if one:
                yield st, e.norm(S('bool', And(Not(empty(t)), Eq(sh(t), sh(p)))))
            else:
                yield st, e.norm(S('bool', sprefix(p, t)))
            return
        sp = _spine(p)
        if sp is not None and 0 < len(sp) <= 4 or one:
            sp = sp if sp is not None else [sh(p)]
            c, x = True, t
            for ch in reversed(sp):
                c = And(c, Not(empty(x)), Eq(slast(x), ch))
                x = sinit(x)
            yield st, e.norm(S('bool', c))
            return
        if sp is None:
            pre = []            # known last characters: app(x, 'c')
            x = p
            if isz(x) and z3.is_app(x) and x.decl().name() == 'scons' and _single(e, st, stl(x)):
                # two characters, the second symbolic
                two = stl(x)
                yield st, e.norm(S('bool', And(Not(empty(t)), Eq(slast(t), sh(two)), Not(empty(sinit(t))), Eq(slast(sinit(t)), sh(x)))))
                return
        raise Unsupported(f'endswith of an unknown string {p} ', node)
    if name == 'isspace':
        sp = _spine(t)
        if sp is not None:
            yield st, e.norm(S('bool', And(len(sp) > 0, *[is_space(c) for c in sp])))
            return
        yield st, e.norm(S('bool', And(Not(empty(t)), sp_all(t))))
        return
    if name == 'lower':
        yield st, S('str', to_lower(t))
        return
    if name == 'strip' and len(args) == 1 and isinstance(args[0], K) and len(args[0].obj) == 1:
        c = ord(args[0].obj)
        yield st, S('str', sstrip_r(sstrip_l(t, c), c))
        return
    if name == 'strip' and not args:
        yield st, S('str', strip_ws(t))
        return
    if name == 'format':
        yield st, S('str', fresh(Str, 'fmt'))
        return
    m = e.meth_models.get((str, name))
    if m:
        yield from m(e, st, r, args, kwargs)
        return
    raise Unsupported(f'str.{name}', node)


def _spine(t):
    if not isz(t):
        return list(t)
    out = []
    while z3.is_app(t) and t.decl().name() == 'scons':
        out.append(t.arg(0))
        t = t.arg(1)
    if z3.is_app(t) and t.decl().name() == 'snil':
        return out
    return None


def _single(e, st, p):
    sp = _spine(p)
    if sp is not None:
        return len(sp) == 1
    # entailed by the path condition?
    return not e.feasible(st, [z3.Not(z3.And(Str.is_scons(p), Str.stl(p) == Str.snil))])


def _list_method(e, st, r, c, name, args, kwargs, node):
    if name in ('append', 'extend', 'insert', 'pop', 'clear', 'remove', 'reverse', 'sort', 'add', 'discard'):
        e.check_param(st, r, node)
    if name == 'append':
        e.mutate(st, r, lapp(c.term, lcons(e.to_val(st, args[0]), ())), node)
        yield st, K(None)
        return
    if name == 'extend':
        for st1, it in e.iterate(st, args[0]):
            if isinstance(it, ExcV):
                yield st1, it
                continue
            t = e.it_term(it) if it.dom != 'tup' else e._lv(st1, it.term)
            if t is None:
                raise Unsupported('extend', node)
            e.mutate(st1, r, lapp(c.term, t), node)
            yield st1, (it.tail if it.tail is not None else K(None))
        return
    if name == 'pop':
        if not args:
            for st1, b in e.fork(st, empty(c.term)):
                if b:
                    yield e.throw(st1, IndexError)
                else:
                    v = llast(c.term)
                    e.mutate(st1, r, linit(c.term), node)
                    yield st1, e.norm(S('val', v))
            return
        i = e.norm(args[0])
        if isinstance(i, K) and i.obj == 0:
            for st1, b in e.fork(st, empty(c.term)):
                if b:
                    yield e.throw(st1, IndexError)
                else:
                    v = lh(c.term)
                    e.mutate(st1, r, lt(c.term), node)
                    yield st1, e.norm(S('val', v))
            return
        cs, ii = e.coerce(st, i, 'int')
        for st1, b in e.fork(st, And(0 <= ii, ii < llen(c.term))):
            if b:
                e.mutate(st1, r, ldel(c.term, ii), node)
                yield st1, e.norm(S('val', lnth(c.term, ii)))
            else:
                for st2, b2 in e.fork(st1, ii >= llen(c.term)):
                    if b2:
                        yield e.throw(st2, IndexError)
                    else:
                        for st3, b3 in e.fork(st2, ii + llen(c.term) >= 0):
                            if b3:
                                e.mutate(st3, r, ldel(c.term, ii + llen(c.term)), node)
                                yield st3, e.norm(S('val', lnth(c.term, ii + llen(c.term))))
                            else:
                                yield e.throw(st3, IndexError)
        return
    if name == 'clear':
        e.mutate(st, r, (), node)
        yield st, K(None)
        return
    if name == 'insert' and not isinstance(e.norm(args[0]), K):
        cs, i = e.coerce(st, args[0], 'int')
        if not cs:
            for st1, b in e.fork(st, i >= 0):
                if not b:
                    raise Unsupported('insertion possibly at a negative index', node)
                e.mutate(st1, r, lins(c.term, i, e.to_val(st1, args[1])), node)
                yield st1, K(None)
            return
    if name == 'insert' and isinstance(e.norm(args[0]), K) and e.norm(args[0]).obj == 0:
        e.mutate(st, r, lcons(e.to_val(st, args[1]), c.term), node)
        yield st, K(None)
        return
    if name == 'copy':
        yield st, e.new_list(st, c.term, c.kind)
        return
    if c.kind == 'set' and name == 'union':
        cs, t = e.coerce(st, args[0], 'lv')
        if cs:
            cs2, t2 = e.coerce(st, args[0], 'le')
            if cs2:
                for st1, it in e.iterate(st, args[0]):
                    tt = e.it_term(it) if not isinstance(it, ExcV) else None
                    if tt is None:
                        raise Unsupported('set.union', node)
                    yield st1, e.new_list(st1, lapp(c.term, tt), 'set')
                return
            t = ekeys(t2)
        yield st, e.new_list(st, lapp(c.term, t), 'set')
        return
    raise Unsupported(f'list.{name}', node)


def _dict_method(e, st, r, c, term, name, args, kwargs, node):
    if name in ('pop', 'update', 'clear', 'setdefault', 'popitem') and r is not None:
        e.check_param(st, r, node)
    if name == 'get':
        k = e.to_val(st, args[0], freeze=False)
        d = args[1] if len(args) > 1 else K(None)
        for st1, b in e.fork(st, ehas(term, k)):
            if b:
                yield st1, e.norm(S('val', eget(term, k)))
            else:
                yield st1, d
        return
    if name in ('keys', 'values', 'items'):
        yield st, It('le', term, plain=name)
        return
    if name == 'copy':
        yield st, e.new_dict(st, term)
        return
    if r is not None and name == 'pop':
        k = e.to_val(st, args[0], freeze=False)
        for st1, b in e.fork(st, ehas(term, k)):
            if b:
                v = eget(term, k)
                e.mutate(st1, r, edel(term, k), node)
                yield st1, e.norm(S('val', v))
            elif len(args) > 1:
                yield st1, args[1]
            else:
                yield e.throw(st1, KeyError)
        return
    if r is not None and name == 'update' and len(args) == 1 and not kwargs:
        cs, t = e.coerce(st, args[0], 'le')
        for st1, b in e.fork(st, And(*cs)):
            if b:
                e.mutate(st1, r, eupdate(term, t), node)
                yield st1, K(None)
            else:
                raise Unsupported('dict.update of unknown', node)
        return
    if r is not None and name == 'clear':
        e.mutate(st, r, (), node)
        yield st, K(None)
        return
    if name == '__contains__':
        yield st, S('bool', ehas(term, e.to_val(st, args[0], freeze=False)))
        return
    raise Unsupported(f'dict.{name}', node)
