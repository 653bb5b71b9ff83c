"""Contracts of the containers of marsh.utils (properties C16, C18, C19, C20)."""
import pyvc  # noqa
import z3
import marsh
from marsh.utils import PriorityOrder, SafeDict, ValueCache, IterableFromIterator
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, ExcV
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, Loop, Obj, Const
from .marshaling import SEQ

RPC = PriorityOrder._RelativePriorityContainer
REL = RPC._PriorityRelation

# ------------------------------------------------- the relation of two values
rpc = Obj(RPC, name='str', ident='val', lower='lv', higher='lv')


def is_lower(a, b):
    """a is stated to come after b (by either of them)"""
    return Or(lhas(b.lower, a.ident), lhas(a.higher, b.ident))


def is_higher(a, b):
    return Or(lhas(b.higher, a.ident), lhas(a.lower, b.ident))


get_relation = Contract(
    'marsh.utils:PriorityOrder._RelativePriorityContainer.get_relation', {'self': rpc, 'other': rpc}, runtime=False, ret=('tuple', 'bool', 'bool'), retcls=REL, short='get_relation',
    cases=lambda a: [ret(Not(And(is_lower(a.self, a.other), is_higher(a.self, a.other))), (is_lower(a.self, a.other), is_higher(a.self, a.other))),
                     exc(And(is_lower(a.self, a.other), is_higher(a.self, a.other)), ValueError, name='stated both ways')])
has_relation = Contract(
    'marsh.utils:PriorityOrder._RelativePriorityContainer.has_relation', {'self': rpc, 'other': rpc}, runtime=False, ret='bool', short='has_relation',
    cases=lambda a: [ret(True, Or(is_lower(a.self, a.other), is_higher(a.self, a.other)))])
rel_gt = Contract('marsh.utils:PriorityOrder._RelativePriorityContainer.__gt__', {'self': rpc, 'other': rpc}, runtime=False, ret='bool', name='PriorityOrder.gt', short='rel_gt',
                  cases=lambda a: [ret(Not(And(is_lower(a.self, a.other), is_higher(a.self, a.other))), is_higher(a.self, a.other)),
                                   exc(And(is_lower(a.self, a.other), is_higher(a.self, a.other)), ValueError)])
rel_lt = Contract('marsh.utils:PriorityOrder._RelativePriorityContainer.__lt__', {'self': rpc, 'other': rpc}, runtime=False, ret='bool', name='PriorityOrder.lt', short='rel_lt',
                  cases=lambda a: [ret(Not(And(is_lower(a.self, a.other), is_higher(a.self, a.other))), is_lower(a.self, a.other)),
                                   exc(And(is_lower(a.self, a.other), is_higher(a.self, a.other)), ValueError)])

# ------------------------------------------------- where a value is inserted
w_value = Unint('w_value', [Val], Val, doc='the value that an entry of a PriorityOrder wraps')
w_index = Unint('w_index', [Val], Int, doc='when an entry was created')
w_prio = Unint('w_prio', [Val], Int, doc='the priority of an entry')


def _mirror(f, other):
    a, b = z3.Const('a_ab', Val), z3.Const('b_ab', Val)
    yield 'mirror', z3.ForAll([a, b], f(a, b) == other()(b, a), patterns=[f(a, b)])


above = Unint('above', [Val, Val], Bool, facts=lambda f: _mirror(f, lambda: below), doc='an entry is stated to come before another (get_relation: contract proved; the other comes after it)')
below = Unint('below', [Val, Val], Bool, facts=lambda f: _mirror(f, lambda: above), doc='an entry is stated to come after another (get_relation: contract proved)')


def clash(a, b):
    return And(above(a, b), below(a, b))


# the position for w in (the rest of) the list, idx being the position so far and i the index of the rest
fidx = Rec('fidx', [LV, Val, Int, Int], Int, lambda w, i, idx: idx,
           lambda h, t, w, i, idx: Ite(above(w, h), idx, lambda: Ite(Or(below(w, h), w_prio(w) < w_prio(h)), lambda: fidx(t, w, i + 1, i + 1), lambda: fidx(t, w, i + 1, idx)), Int))
# is an entry stated to be both above and below one that is looked at (that is an error)
fclash = Rec('fclash', [LV, Val], Bool, lambda w: False, lambda h, t, w: Ite(clash(w, h), True, lambda: Ite(above(w, h), False, lambda: fclash(t, w))))


def prio_setup(e, st):
    def rp(e, st, v):
        yield st, O(v.t if isinstance(v, S) else v, 'relative')
    e.val_attrs['relative_priority'] = rp
    e.val_attrs['priority'] = lambda e, st, v: iter([(st, S('int', w_prio(v.t)))])
    e.val_attrs['value'] = lambda e, st, v: iter([(st, S('val', w_value(v.t)))])
    e.val_attrs['index'] = lambda e, st, v: iter([(st, S('int', w_index(v.t)))])

    def cmp(rel):
        def f(e, st, a, b):
            if not (isinstance(a, O) and isinstance(b, O)):
                raise E.Unsupported('comparison')
            for st1, c in e.fork(st, clash(a.t, b.t)):
                yield e.throw(st1, ValueError) if c else (st1, rel(a.t, b.t))
        return f
    e.models[('compare', 'Gt')] = cmp(above)
    e.models[('compare', 'Lt')] = cmp(below)


def _fi_inv(v):
    a = v.a
    return [Eq(fidx(v.rest, a.wrapped, v.idx, v.int('idx')), fidx(a.values, a.wrapped, 0, 0)), Eq(fclash(v.rest, a.wrapped), fclash(a.values, a.wrapped)),
            0 <= v.int('idx'), v.int('idx') <= v.idx]


find_index = Contract(
    'marsh.utils:PriorityOrder._find_index', {'wrapped': 'val', 'values': 'lv'}, runtime=False, ret='int', name='PriorityOrder.find_index', short='find_index', setup=prio_setup,
    cases=lambda a: [ret(Not(fclash(a.values, a.wrapped)), lambda: fidx(a.values, a.wrapped, 0, 0), where=lambda r: [r >= 0]), exc(fclash(a.values, a.wrapped), ValueError)],
    loops=[Loop(_fi_inv, name='positions')])

# ------------------------------------------------- adding a value
first = Rec('first', [LV, Val], Int, lambda x: 0, lambda h, t, x: Ite(py_eq(w_value(h), x), 0, lambda: 1 + first(t, x), Int))     # index of the entry of value x
holds = Rec('holds', [LV, Val], Bool, lambda x: False, lambda h, t, x: Or(py_eq(w_value(h), x), holds(t, x)))
new_entry = Unint('new_entry', [Val], Val, doc='the entry that is created for a value (with the priorities it is given)')


def add_setup(e, st):
    prio_setup(e, st)

    def entry(e, st, args, kw):
        v = kw['value'] if 'value' in kw else args[0]
        t = new_entry(e.to_val(st, v))
        st = st.fork().assume(w_value(t) == e.to_val(st, v))
        yield st, S('val', t)
    e.models[PriorityOrder._WrappedValue] = entry
    e.models[PriorityOrder] = None
    del e.models[PriorityOrder]


def _add_inv(v):
    xs, x = v.a.self._values, v.a.value
    return [Eq(v.list('values'), xs), Eq(first(xs, x), v.idx + first(ldrop(xs, v.idx), x)), Eq(holds(xs, x), holds(ldrop(xs, v.idx), x)), 0 <= v.idx, v.idx <= llen(xs)]


def added(a, xs):
    w = new_entry(a.value)
    same = {('self', '_values'): ('lv', a.self._values)}
    return [ret(Not(fclash(xs, w)), a.value, fields={('self', '_values'): ('lv', lambda now: [Eq(now, lins(xs, fidx(xs, w, 0, 0), w))])}),
            exc(fclash(xs, w), ValueError, fields=same, name='circular')]


def add_cases(a):
    xs = a.self._values
    dup = holds(xs, a.value)
    out = []
    for pre, lst in ((Not(dup), xs), (And(dup, a.replace), ldel(xs, first(xs, a.value)))):
        for c in added(a, lst):
            c.cond = And(pre, c.cond)
            out.append(c)
    return out + [exc(And(dup, Not(a.replace)), ValueError, fields={('self', '_values'): ('lv', xs)}, name='exists already')]


Lemma('first_range', [('l', LV), ('x', Val)], lambda l, x: And(0 <= first(l, x), Implies(holds(l, x), first(l, x) < llen(l))), on='l', patterns=lambda l, x: [first(l, x)], uses=('llen_nonneg',))
add = Contract(
    'marsh.utils:PriorityOrder.add', {'self': Obj(PriorityOrder, _values='lv'), 'value': 'val', 'priority': 'int', 'lower_priority': 'val', 'higher_priority': 'val', 'replace': 'bool'},
    runtime=False, modifies=('_values',), name='PriorityOrder.add', short='add', setup=add_setup, requires=lambda a: [Not(isN(a.value))],
    cases=add_cases, loops=[Loop(_add_inv, name='entries')], lemmas=SEQ + ('first_range',))

# ------------------------------------------------- what follows about the order
# the order of the others is kept
Lemma('C16_others_keep_order', [('l', LV), ('i', Int), ('w', Val)], lambda l, i, w: Implies(And(0 <= i, i <= llen(l)), ldel(lins(l, i, w), i) == l), on='l', uses=('llen_nonneg',))
Lemma('C16_inserted', [('l', LV), ('i', Int), ('w', Val)], lambda l, i, w: Implies(And(0 <= i, i <= llen(l)), lnth(lins(l, i, w), i) == w), on='l', uses=('llen_nonneg',))
noneabove = Rec('noneabove', [LV, Val, Int], Bool, lambda w, n: True, lambda h, t, w, n: Or(n <= 0, And(Not(above(w, h)), noneabove(t, w, n - 1))))
Lemma('fidx_shift', [('l', LV), ('w', Val), ('i', Int), ('idx', Int)], lambda l, w, i, idx: Or(fidx(l, w, i, idx) == idx, fidx(l, w, i, idx) > i), on='l')
Lemma('noneabove_0', [('l', LV), ('w', Val), ('n', Int)], lambda l, w, n: Implies(n <= 0, noneabove(l, w, n)), on='l')
# the entry is in front of everything that it is stated to be above
Lemma('C16_before_lower', [('l', LV), ('w', Val), ('i', Int), ('idx', Int)],
      lambda l, w, i, idx: Implies(idx <= i, noneabove(l, w, fidx(l, w, i, idx) - i)), on='l', uses=('fidx_shift', 'noneabove_0'))
tail_free = Rec('tail_free', [LV, Val, Int], Bool, lambda w, n: True,
                lambda h, t, w, n: Or(above(w, h), And(Or(n > 0, And(Not(below(w, h)), w_prio(w) >= w_prio(h))), tail_free(t, w, n - 1))))
# and behind everything it is stated to be below and everything of higher priority
# (up to the first one that it has to be in front of); among equals it comes first
Lemma('C16_behind_higher', [('l', LV), ('w', Val), ('i', Int), ('idx', Int)],
      lambda l, w, i, idx: Implies(idx <= i, tail_free(l, w, fidx(l, w, i, idx) - i)), on='l', uses=('fidx_shift',))

# ------------------------------------------------- SafeDict: hashable and unhashable keys
def two(h):
    """a tuple of two"""
    return Eq(h, vseq(TUPLE, lcons(lh(ofQ(h)), lcons(lh(lt(ofQ(h))), ()))))


pairs = Rec('pairs', [LV], Bool, lambda: True, lambda h, t: And(two(h), pairs(t)))


def pk(p):
    return lh(ofQ(p))


def pv(p):
    return lh(lt(ofQ(p)))


def pair(a, b):
    return vseq(TUPLE, lcons(a, lcons(b, ())))


uhas = Rec('uhas', [LV, Val], Bool, lambda k: False, lambda h, t, k: Or(py_eq(pk(h), k), uhas(t, k)))
uget = Rec('uget', [LV, Val], Val, lambda k: VNone, lambda h, t, k: Ite(py_eq(pk(h), k), lambda: pv(h), lambda: uget(t, k), Val))
ukey = Rec('ukey', [LV, Val], Val, lambda k: VNone, lambda h, t, k: Ite(py_eq(pk(h), k), lambda: pk(h), lambda: ukey(t, k), Val))
ufirst = Rec('ufirst', [LV, Val], Int, lambda k: 0, lambda h, t, k: Ite(py_eq(pk(h), k), 0, lambda: 1 + ufirst(t, k), Int))
# the order of n entries that have a hashable key, from index i on
oseq = Rec('oseq', [LE, Int, Int], LV, lambda n, i: (), lambda k, v, t, n, i: Ite(n <= 0, (), lambda: lcons(pair(vbool(True), vint(i)), oseq(t, n - 1, i + 1)), LV))
Lemma('oseq_snoc', [('e', LE), ('n', Int), ('i', Int)], lambda e, n, i: Implies(And(0 <= n, n < elen(e)), oseq(e, n + 1, i) == lapp(oseq(e, n, i), lcons(pair(vbool(True), vint(i + n)), ()))), on='e',
      patterns=lambda e, n, i: [oseq(e, n, i)], uses=('oseq_0',))
Lemma('oseq_0', [('e', LE), ('n', Int), ('i', Int)], lambda e, n, i: Implies(n <= 0, oseq(e, n, i) == LV.lnil), on='e', patterns=lambda e, n, i: [oseq(e, n, i)])
Lemma('elen_set', [('e', LE), ('k', Val), ('v', Val)], lambda e, k, v: elen(eset(e, k, v)) == elen(e) + Ite(ehas(e, k), z3.IntVal(0), z3.IntVal(1)), on='e', patterns=lambda e, k, v: [eset(e, k, v)])
Lemma('elen_nonneg', [('e', LE)], lambda e: elen(e) >= 0, on='e', patterns=lambda e: [elen(e)])
Lemma('pairs_rev', [('l', LV), ('acc', LV)], lambda l, acc: pairs(lrev(l, acc)) == z3.And(pairs(l), pairs(acc)), on='l', patterns=lambda l, acc: [lrev(l, acc)])
Lemma('llen_rev', [('l', LV), ('acc', LV)], lambda l, acc: llen(lrev(l, acc)) == llen(l) + llen(acc), on='l', patterns=lambda l, acc: [lrev(l, acc)])
Lemma('ufirst_range', [('l', LV), ('k', Val)], lambda l, k: And(0 <= ufirst(l, k), Implies(uhas(l, k), ufirst(l, k) < llen(l))), on='l', patterns=lambda l, k: [ufirst(l, k)], uses=('llen_nonneg',))

safe = Obj(SafeDict, _hashable_cache='le', _unhashable_cache='lv', _order='lv')


def hash_setup(e, st):
    e.check_hash = True


def rv(a):
    return lrev(a.self._unhashable_cache, ())


def hc(a):
    return a.self._hashable_cache


def uc(a):
    return a.self._unhashable_cache


def _ufind_inv(v):
    a = v.a
    return [Eq(uhas(v.rest, a.key), uhas(rv(a), a.key)), Eq(uget(v.rest, a.key), uget(rv(a), a.key)), pairs(v.rest)]


SD = ('pairs_rev', 'llen_rev', 'llen_nonneg')
sd_get = Contract(
    'marsh.utils:SafeDict.__getitem__', {'self': safe, 'key': 'val'}, runtime=False, name='SafeDict.getitem', short='sd_get', setup=hash_setup, requires=lambda a: [pairs(uc(a))],
    cases=lambda a: [ret(And(hashable(a.key), ehas(hc(a), a.key)), lambda: eget(hc(a), a.key)), ret(And(Not(hashable(a.key)), uhas(rv(a), a.key)), lambda: uget(rv(a), a.key)),
                     exc(Or(And(hashable(a.key), Not(ehas(hc(a), a.key))), And(Not(hashable(a.key)), Not(uhas(rv(a), a.key)))), KeyError)],
    loops=[Loop(_ufind_inv, name='unhashable keys')], lemmas=SD)
sd_len = Contract('marsh.utils:SafeDict.__len__', {'self': safe}, runtime=False, ret='int', name='SafeDict.len', short='sd_len', cases=lambda a: [ret(True, elen(hc(a)) + llen(uc(a)))])


def _order_inv(v):
    return [Eq(v.acc, oseq(hc(v.a), v.idx, 0)), 0 <= v.idx, v.idx <= elen(hc(v.a))]


def _uset_inv(v):
    a = v.a
    n = v.idx - v.entry.idx      # enumerate may start anywhere
    return [Eq(uhas(v.rest, a.key), uhas(rv(a), a.key)), Eq(ukey(v.rest, a.key), ukey(rv(a), a.key)), Eq(n + ufirst(v.rest, a.key), ufirst(rv(a), a.key)), pairs(v.rest), 0 <= n,
            Eq(v.field('self', '_unhashable_cache', 'lv'), uc(a)), Eq(v.field('self', '_order', 'lv'), base_order(a))]


def sd_fields(h, u, o):
    return {('self', '_hashable_cache'): ('le', h), ('self', '_unhashable_cache'): ('lv', u), ('self', '_order'): ('lv', o)}


def base_order(a):
    return Ite(empty(uc(a)), lambda: oseq(hc(a), elen(hc(a)), 0), a.self._order, LV)


def sd_set_cases(a):
    h, u, o = hc(a), uc(a), a.self._order
    n = llen(u)
    return [
        ret(hashable(a.key), (), fields=sd_fields(eset(h, a.key, a.value), u, lambda now: [Eq(now, Ite(Or(empty(u), ehas(h, a.key)), o, lambda: lapp(o, lcons(pair(vbool(True), vint(elen(h))), ())), LV))])),
        ret(And(Not(hashable(a.key)), uhas(rv(a), a.key)), (), fields=sd_fields(h, lupd(u, n - 1 - ufirst(rv(a), a.key), pair(ukey(rv(a), a.key), a.value)), base_order(a)), name='the key exists'),
        ret(And(Not(hashable(a.key)), Not(uhas(rv(a), a.key))), (), fields=sd_fields(h, lapp(u, lcons(pair(a.key, a.value), ())), lambda now: [Eq(now, lapp(base_order(a), lcons(pair(vbool(False), vint(n)), ())))]), name='a new key'),
    ]


sd_set = Contract(
    'marsh.utils:SafeDict.__setitem__', {'self': safe, 'key': 'val', 'value': 'val'}, runtime=False, ret='none', name='SafeDict.setitem', short='sd_set', setup=hash_setup,
    modifies=('_hashable_cache', '_unhashable_cache', '_order'), requires=lambda a: [pairs(uc(a))], cases=sd_set_cases,
    loops=[Loop(_order_inv, name='order'), Loop(_uset_inv, name='unhashable keys')], lemmas=SD + ('oseq_snoc', 'oseq_0', 'elen_set', 'elen_nonneg', 'ufirst_range'))

# get after set, for keys that can not be hashed
Lemma('lupd_app', [('a', LV), ('b', LV), ('i', Int), ('v', Val)],
      lambda a, b, i, v: lupd(lapp(a, b), i, v) == Ite(And(0 <= i, i < llen(a)), lapp(lupd(a, i, v), b), lapp(a, lupd(b, i - llen(a), v))), on='a', uses=('llen_nonneg',))
Lemma('uset_get', [('l', LV), ('k', Val), ('x', Val)], lambda l, k, x: Implies(And(pairs(l), uhas(l, k)), uget(lupd(l, ufirst(l, k), vseq(TUPLE, lcons(ukey(l, k), lcons(x, ())))), k) == x), on='l', uses=('ufirst_range',))

# ------------------------------------------------- IterableFromIterator: every iteration sees every item
def others_advance(e, st, fr):
    """while an iteration is suspended, other iterations may take more items"""
    ref = st.frames[fr.fid][e.role('self')]
    cell = st.heap[ref.loc]
    it, ca = cell.fields['_iter'], cell.fields['_cache']
    took, left = fresh(LV, 'took'), fresh(LV, 'left')
    st.assume(Eq(st.heap[it.loc].term, lapp(took, left)))
    e.mutate(st, it, left)
    e.mutate(st, ca, lapp(st.heap[ca.loc].term, took))


def iter_setup(e, st):
    e.on_yield = others_advance


def src(a):
    return lapp(a.self._cache, a.self._iter)


def _iter_inv(v):
    a = v.a
    c, i = v.field('self', '_cache', 'lv'), v.int('i')
    return [Eq(lapp(c, v.field('self', '_iter', 'iter')), src(a)), 0 <= i, i <= llen(c), Eq(v.yields, ltake(src(a), i))]


Lemma('ltake_0', [('l', LV), ('i', Int)], lambda l, i: Implies(i <= 0, ltake(l, i) == LV.lnil), on='l', patterns=lambda l, i: [ltake(l, i)])
Lemma('ltake_all', [('l', LV), ('i', Int)], lambda l, i: Implies(i >= llen(l), ltake(l, i) == l), on='l', patterns=lambda l, i: [ltake(l, i)], uses=('llen_nonneg',))
Lemma('ltake_step', [('l', LV), ('i', Int)], lambda l, i: Implies(And(0 <= i, i < llen(l)), ltake(l, i + 1) == lapp(ltake(l, i), lcons(lnth(l, i), ()))), on='l', patterns=lambda l, i: [ltake(l, i)],
      uses=('llen_nonneg', 'ltake_0'))
iter_all = Contract(
    'marsh.utils:IterableFromIterator.__iter__', {'self': Obj(IterableFromIterator, _iter='iter', _cache='lv')}, runtime=False, ret='gen', name='IterableFromIterator.iter', short='iter_all',
    setup=iter_setup, modifies=('_iter', '_cache'), cases=lambda a: [ret(True, src(a), fields={('self', '_iter'): ('iter', ()), ('self', '_cache'): ('lv', src(a))})],
    loops=[Loop(_iter_inv, name='items')], lemmas=('ltake_0', 'ltake_all', 'ltake_step', 'lapp_assoc', 'lapp_nil', 'llen_nonneg', 'llen_app', 'lnth_appl', 'lnth_appr'))

iter_bool = Contract(
    'marsh.utils:IterableFromIterator.__bool__', {'self': Obj(IterableFromIterator, _iter='iter', _cache='lv')}, runtime=False, ret='bool', name='IterableFromIterator.bool', short='iter_bool', modifies=('_iter', '_cache'),
    cases=lambda a: [ret(empty(a.self._cache), Not(empty(a.self._iter)), fields={('self', '_iter'): ('iter', ldrop(a.self._iter, 1)), ('self', '_cache'): ('lv', ltake(a.self._iter, 1))}, name='nothing taken so far'),
                     ret(Not(empty(a.self._cache)), True, fields={('self', '_iter'): ('iter', a.self._iter), ('self', '_cache'): ('lv', a.self._cache)}, name='an item is there')],
    lemmas=('ltake_0', 'llen_nonneg'))

# ------------------------------------------------- ValueCache: gives back what was put in for the key, or KeyError
chk = Unint('chk', [LV], Val, doc='the _CachedHashKey of the items: equal to that of other items only if they are equal')
type_val = Unint('type_val', [Val], Val, doc='the type of a value')


lhash = Rec('lhash', [LV], Bool, lambda: True, lambda h, t: And(hashable(h), lhash(t)))


def is_fast(k):
    return Or(*[Eq(k, ('C', const_of(c))) for c in (int, str)])


def lst(*xs):
    t = ()
    for x in reversed(xs):
        t = lcons(x, t)
    return t


def vkey(a, k):
    """the key under which a value cache files what belongs to k"""
    t = type_val(k)
    return Ite(hashable(k), lambda: Ite(a.self._typed, lambda: chk(lst(k, t)), lambda: Ite(is_fast(k), k, lambda: chk(lst(k)), Val), Val),
               lambda: Ite(a.self._typed, lambda: vseq(TUPLE, lst(k, t)), k, Val), Val)


def vc_setup(e, st):
    hash_setup(e, st)
    """the hash of a tuple is that of its items"""
    e.assumptions.add('a _CachedHashKey is a key that can be hashed, equal to another one only if their items are equal; making it raises TypeError for items that can not be hashed; the type of a value can be hashed')

    def make(e, st, args, kw):
        x = e.to_val(st, args[0])
        if e.feasible(st, [Not(isQ(x))]):
            raise E.Unsupported('_CachedHashKey of something else')
        items = ofQ(x)
        ok = lhash(items)
        for st1, b in e.fork(st, ok):
            if b:
                k = chk(items)
                st1.pc.append(hashable(k))
                yield st1, S('val', k)
            else:
                yield e.throw(st1, TypeError)
    e.models[marsh.utils._CachedHashKey] = make

    def typ(e, st, args, kw):
        t = type_val(e.to_val(st, args[0]))
        st.pc.append(hashable(t))
        yield st, S('val', t)
    e.models[type] = typ


vcache = Obj(ValueCache, _typed='bool', _hits='int', _misses='int', _disabled='bool', _cache=safe)


def vc(a):
    return a.self._cache


def vc_has(a, k):
    return Ite(hashable(k), lambda: ehas(vc(a)._hashable_cache, k), lambda: uhas(lrev(vc(a)._unhashable_cache, ()), k), Bool)


def vc_get(a, k):
    return Ite(hashable(k), lambda: eget(vc(a)._hashable_cache, k), lambda: uget(lrev(vc(a)._unhashable_cache, ()), k), Val)


def counts(a, h, m):
    return {('self', '_hits'): ('int', a.self._hits + h), ('self', '_misses'): ('int', a.self._misses + m)}


vc_getitem = Contract(
    'marsh.utils:ValueCache.__getitem__', {'self': vcache, 'key': 'val'}, runtime=False, name='ValueCache.getitem', short='vc_getitem', setup=vc_setup, modifies=('_hits', '_misses'),
    requires=lambda a: [pairs(vc(a)._unhashable_cache)],
    cases=lambda a: [exc(a.self._disabled, KeyError, fields=counts(a, 0, 0), name='disabled'),
                     ret(And(Not(a.self._disabled), vc_has(a, vkey(a, a.key))), lambda: vc_get(a, vkey(a, a.key)), fields=counts(a, 1, 0), name='hit'),
                     exc(And(Not(a.self._disabled), Not(vc_has(a, vkey(a, a.key)))), KeyError, fields=counts(a, 0, 1), name='miss')])


def vc_set_cases(a):
    k = vkey(a, a.key)
    return [ret(a.self._disabled, (), fields=vc_same(a), name='disabled'),
            ret(And(Not(a.self._disabled), hashable(k)), (), fields={('self._cache', '_hashable_cache'): ('le', eset(vc(a)._hashable_cache, k, a.value)), ('self._cache', '_unhashable_cache'): ('lv', vc(a)._unhashable_cache)}),
            ret(And(Not(a.self._disabled), Not(hashable(k))), (), fields={('self._cache', '_hashable_cache'): ('le', vc(a)._hashable_cache)}, name='unhashable')]


def vc_same(a):
    return {('self._cache', '_hashable_cache'): ('le', vc(a)._hashable_cache), ('self._cache', '_unhashable_cache'): ('lv', vc(a)._unhashable_cache)}


vc_setitem = Contract(
    'marsh.utils:ValueCache.__setitem__', {'self': vcache, 'key': 'val', 'value': 'val'}, runtime=False, ret='none', name='ValueCache.setitem', short='vc_setitem', setup=vc_setup,
    modifies=('_hashable_cache', '_unhashable_cache', '_order'), requires=lambda a: [pairs(vc(a)._unhashable_cache)], cases=vc_set_cases)

# ------------------------------------------------- SafeDict: deletion keeps the order of the others
orders = Rec('orders', [LV], Bool, lambda: True, lambda h, t: And(two(h), isB(pk(h)), isI(pv(h)), orders(t)))
rmo = Rec('rmo', [LV, Bool, Int], LV, lambda b, i: (), lambda h, t, b, i: Ite(And(Eq(ofB(pk(h)), b), Eq(ofI(pv(h)), i)), lambda: rmo(t, b, i), lambda: lcons(
    pair(pk(h), vint(Ite(And(Eq(ofB(pk(h)), b), ofI(pv(h)) > i), lambda: ofI(pv(h)) - 1, lambda: ofI(pv(h)), Int))), rmo(t, b, i)), LV))


def _rmo_inv(v):
    a = v.a
    return [Eq(lapp(v.acc, rmo(v.rest, a.hashable, a.index)), rmo(a.self._order, a.hashable, a.index)), orders(v.rest)]


remove_order = Contract(
    'marsh.utils:SafeDict._remove_order', {'self': safe, 'hashable': 'bool', 'index': 'int'}, runtime=False, ret='none', name='SafeDict.remove_order', short='remove_order', modifies=('_order',),
    requires=lambda a: [orders(a.self._order)], cases=lambda a: [ret(True, (), fields={('self', '_order'): ('lv', rmo(a.self._order, a.hashable, a.index))})],
    loops=[Loop(_rmo_inv, name='order')], lemmas=('lapp_assoc', 'lapp_nil'))

# the keys of a dictionary compare equal only if they are the same key
eqrep = Rec('eqrep', [LE, Val], Bool, lambda k: True, lambda k0, v0, t, k: And(Implies(py_eq(k0, k), Eq(k0, k)), eqrep(t, k)))
efirst = Rec('efirst', [LE, Val], Int, lambda k: 0, lambda k0, v0, t, k: Ite(Eq(k0, k), 0, lambda: 1 + efirst(t, k), Int))


def _dfind_inv(v):
    a = v.a
    return [Eq(v.idx + efirst(v.rest, a.key), efirst(hc(a), a.key)), Eq(ehas(v.rest, a.key), ehas(hc(a), a.key)), eqrep(v.rest, a.key), 0 <= v.idx,
            Eq(v.field('self', '_order', 'lv'), a.self._order)]


def _ddel_inv(v):
    a = v.a
    n = v.idx - v.entry.idx
    return [Eq(uhas(v.rest, a.key), uhas(rv(a), a.key)), Eq(n + ufirst(v.rest, a.key), ufirst(rv(a), a.key)), pairs(v.rest), 0 <= n, Eq(n + llen(v.rest), llen(uc(a))),
            Eq(v.field('self', '_unhashable_cache', 'lv'), uc(a)), Eq(v.field('self', '_order', 'lv'), a.self._order)]


def sd_del_cases(a):
    h, u, o = hc(a), uc(a), a.self._order
    i = llen(u) - 1 - ufirst(rv(a), a.key)
    same = sd_fields(h, u, o)
    return [
        ret(And(hashable(a.key), ehas(h, a.key)), (), fields=sd_fields(edel(h, a.key), u, lambda now: [Eq(now, Ite(empty(u), o, lambda: rmo(o, True, efirst(h, a.key)), LV))])),
        ret(And(Not(hashable(a.key)), uhas(rv(a), a.key)), (), fields=sd_fields(h, ldel(u, i), rmo(o, False, i)), name='unhashable'),
        exc(Or(And(hashable(a.key), Not(ehas(h, a.key))), And(Not(hashable(a.key)), Not(uhas(rv(a), a.key)))), KeyError, fields=same)]


sd_del = Contract(
    'marsh.utils:SafeDict.__delitem__', {'self': safe, 'key': 'val'}, runtime=False, ret='none', name='SafeDict.delitem', short='sd_del', setup=hash_setup,
    modifies=('_hashable_cache', '_unhashable_cache', '_order'), requires=lambda a: [pairs(uc(a)), orders(a.self._order), eqrep(hc(a), a.key)], cases=sd_del_cases,
    loops=[Loop(_dfind_inv, name='hashable keys'), Loop(_ddel_inv, name='unhashable keys')], lemmas=SD + ('elen_nonneg', 'ufirst_range'))

# ------------------------------------------------- PriorityOrder.reload: every entry is added again, in the order they were created
by_index = Unint('by_index', [LV], LV, doc='sorted(entries, key=index): the entries in the order they were created')
rebuild = Rec('rebuild', [LV, LV], LV, lambda acc: acc, lambda w, t, acc: rebuild(t, lins(acc, fidx(acc, w, 0, 0), w)))
rclash = Rec('rclash', [LV, LV], Bool, lambda acc: False, lambda w, t, acc: Or(fclash(acc, w), rclash(t, lins(acc, fidx(acc, w, 0, 0), w))))


def reload_setup(e, st):
    prio_setup(e, st)

    def srt(e, st, args, kw):
        if set(kw) != {'key'}:
            raise E.Unsupported('sorted')
        x = S('val', fresh(Val, 'entry'))
        out = list(e.call(st.fork(), kw['key'], [x], {}))
        if len(out) != 1 or not isinstance(out[0][1], S) or not isz(out[0][1].t) or not out[0][1].t.eq(w_index(x.t)):
            raise E.Unsupported('sorted by another key than the index')
        cs, t = e.coerce(st, args[0], 'lv')
        yield st, e.new_list(st, by_index(t))
    e.models[sorted] = srt


def _reload_inv(v):
    xs = by_index(v.a.self._values)
    now = v.field('self', '_values', 'lv')
    return [Eq(rebuild(v.rest, now), rebuild(xs, ())), Eq(rclash(v.rest, now), rclash(xs, ()))]


reload_ = Contract(
    'marsh.utils:PriorityOrder.reload', {'self': Obj(PriorityOrder, _values='lv')}, runtime=False, ret='none', modifies=('_values',), name='PriorityOrder.reload', short='reload', setup=reload_setup,
    cases=lambda a: [ret(Not(rclash(by_index(a.self._values), ())), (), fields={('self', '_values'): ('lv', rebuild(by_index(a.self._values), ()))}), exc(rclash(by_index(a.self._values), ()), ValueError)],
    loops=[Loop(_reload_inv, name='entries')])

# ------------------------------------------------- PriorityOrder: removing a value
anyrel = Rec('anyrel', [LV, Val], Bool, lambda w: False, lambda h, t, w: Or(above(w, h), below(w, h), anyrel(t, w)))


def del_setup(e, st):
    reload_setup(e, st)

    def rel(e, st, r, args, kw):
        if len(args) != 1 or kw or not isinstance(args[0], O):
            raise E.Unsupported('has_relation')
        yield st, S('bool', Or(above(r.t, args[0].t), below(r.t, args[0].t)))
    e.meth_models[('relative', 'has_relation')] = rel


def pdel_cases(a):
    xs, n = a.self._values, llen(a.self._values)
    i = Ite(a.index < 0, a.index + n, a.index, Int)
    inside = And(-n <= a.index, a.index < n)
    rest, w = ldel(xs, i), lnth(xs, i)
    again = by_index(rest)
    return [exc(Not(inside), IndexError, fields={('self', '_values'): ('lv', xs)}),
            ret(And(inside, Not(anyrel(rest, w))), (), fields={('self', '_values'): ('lv', rest)}),
            ret(And(inside, anyrel(rest, w), Not(rclash(again, ()))), (), fields={('self', '_values'): ('lv', rebuild(again, ()))}),
            exc(And(inside, anyrel(rest, w), rclash(again, ())), ValueError, name='circular')]


def _pdel_inv(v):
    xs, n = v.a.self._values, llen(v.a.self._values)
    i = Ite(v.a.index < 0, v.a.index + n, v.a.index, Int)
    return [Eq(v.field('self', '_values', 'lv'), ldel(xs, i)), Eq(anyrel(v.rest, lnth(xs, i)), anyrel(ldel(xs, i), lnth(xs, i)))]


priority_del = Contract(
    'marsh.utils:PriorityOrder.__delitem__', {'self': Obj(PriorityOrder, _values='lv'), 'index': 'int'}, runtime=False, ret='none', modifies=('_values',), name='PriorityOrder.delitem', short='priority_del', setup=del_setup,
    cases=pdel_cases, loops=[Loop(_pdel_inv, name='entries')], lemmas=('llen_nonneg',))



def pget_cases(a):
    xs, n = a.self._values, llen(a.self._values)
    inside = And(-n <= a.index, a.index < n)
    return [exc(Not(inside), IndexError), ret(inside, lambda: w_value(lnth(xs, Ite(a.index < 0, a.index + n, a.index, Int))))]


priority_get = Contract(
    'marsh.utils:PriorityOrder.__getitem__', {'self': Obj(PriorityOrder, _values='lv'), 'index': 'int'}, runtime=False, name='PriorityOrder.getitem', short='priority_get', setup=del_setup, cases=pget_cases, lemmas=('llen_nonneg',))
priority_len = Contract('marsh.utils:PriorityOrder.__len__', {'self': Obj(PriorityOrder, _values='lv')}, runtime=False, ret='int', name='PriorityOrder.len', short='priority_len', cases=lambda a: [ret(True, llen(a.self._values))])

# ------------------------------------------------- ValueCache: removal, counters and the switch


def vc_del_cases(a):
    k = vkey(a, a.key)
    h, q, o = vc(a)._hashable_cache, vc(a)._unhashable_cache, vc(a)._order
    i = llen(q) - 1 - ufirst(lrev(q, ()), k)

    def f(h, q, o):
        return {('self._cache', '_hashable_cache'): ('le', h), ('self._cache', '_unhashable_cache'): ('lv', q), ('self._cache', '_order'): ('lv', o)}
    return [ret(And(hashable(k), ehas(h, k)), (), fields=f(edel(h, k), q, lambda now: [Eq(now, Ite(empty(q), o, lambda: rmo(o, True, efirst(h, k)), LV))])),
            ret(And(Not(hashable(k)), uhas(lrev(q, ()), k)), (), fields=f(h, ldel(q, i), rmo(o, False, i)), name='unhashable'),
            exc(Not(vc_has(a, k)), KeyError, fields=f(h, q, o), name='missing')]


vc_delitem = Contract(
    'marsh.utils:ValueCache.__delitem__', {'self': vcache, 'key': 'val'}, runtime=False, ret='none', name='ValueCache.delitem', short='vc_delitem', setup=vc_setup,
    modifies=('_hashable_cache', '_unhashable_cache', '_order'), requires=lambda a: [pairs(vc(a)._unhashable_cache), orders(vc(a)._order), eqrep(vc(a)._hashable_cache, vkey(a, a.key))], cases=vc_del_cases)
vc_info = Contract('marsh.utils:ValueCache.cache_info', {'self': vcache}, runtime=False, name='ValueCache.cache_info', short='vc_info',
                   cases=lambda a: [ret(True, lambda: vseq(TUPLE, lst(vint(a.self._hits), vint(a.self._misses), VNone, vint(elen(vc(a)._hashable_cache) + llen(vc(a)._unhashable_cache)))))])
vc_disable = Contract('marsh.utils:ValueCache.cache_disable', {'self': vcache}, runtime=False, ret='none', name='ValueCache.cache_disable', short='vc_disable', modifies=('_disabled',),
                      cases=lambda a: [ret(True, (), fields={('self', '_disabled'): ('bool', True)})])
vc_enable = Contract('marsh.utils:ValueCache.cache_enable', {'self': vcache}, runtime=False, ret='none', name='ValueCache.cache_enable', short='vc_enable', modifies=('_disabled',),
                     cases=lambda a: [ret(True, (), fields={('self', '_disabled'): ('bool', False)})])

# ------------------------------------------------- SafeDict: the order of the keys
pkeys = Rec('pkeys', [LV], LV, lambda: (), lambda h, t: lcons(pk(h), pkeys(t)))
# the keys that the order stands for (K: the keys that can be hashed, U: those that can not)
omap = Rec('omap', [LV, LV, LV], LV, lambda K, U: (), lambda h, t, K, U: lcons(Ite(ofB(pk(h)), lambda: lnth(K, ofI(pv(h))), lambda: lnth(U, ofI(pv(h))), Val), omap(t, K, U)))
valid = Rec('valid', [LV, Int, Int], Bool, lambda n, m: True, lambda h, t, n, m: And(two(h), isB(pk(h)), isI(pv(h)), 0 <= ofI(pv(h)), ofI(pv(h)) < Ite(ofB(pk(h)), n, m, Int), valid(t, n, m)))
hasent = Rec('hasent', [LV, Bool, Int], Bool, lambda b, i: False, lambda h, t, b, i: Or(And(Eq(ofB(pk(h)), b), Eq(ofI(pv(h)), i)), hasent(t, b, i)))
# every entry is there once
odist = Rec('odist', [LV], Bool, lambda: True, lambda h, t: And(Not(hasent(t, ofB(pk(h)), ofI(pv(h)))), odist(t)))
oposn = Rec('oposn', [LV, Bool, Int], Int, lambda b, i: 0, lambda h, t, b, i: Ite(And(Eq(ofB(pk(h)), b), Eq(ofI(pv(h)), i)), 0, lambda: 1 + oposn(t, b, i), Int))


def oorder(a, order):
    return Ite(empty(uc(a)), ekeys(hc(a)), lambda: omap(order, ekeys(hc(a)), pkeys(uc(a))), LV)


def order_inv(v):
    """the invariant of the order of a SafeDict"""
    o, n, m = v
    return And(valid(o, n, m), odist(o))


def _pk_inv(v):
    return [Eq(lapp(v.acc, pkeys(v.rest)), pkeys(uc(v.a))), pairs(v.rest)]


def _ord_inv(v):
    a = v.a
    keys, unk = ekeys(hc(a)), pkeys(uc(a))
    o = a.self._order
    o = Ite(a.reverse, lambda: lrev(o, ()), o, LV) if 'reverse' in a.__dict__ else o
    return [Eq(lapp(v.yields, omap(v.rest, keys, unk)), omap(o, keys, unk)), valid(v.rest, elen(hc(a)), llen(uc(a)))]


Lemma('omap_rev', [('l', LV), ('acc', LV), ('K', LV), ('U', LV)], lambda l, acc, K, U: Eq(omap(lrev(l, acc), K, U), lrev(omap(l, K, U), omap(acc, K, U))), on='l', patterns=lambda l, acc, K, U: [omap(lrev(l, acc), K, U)])
Lemma('valid_rev', [('l', LV), ('acc', LV), ('n', Int), ('m', Int)], lambda l, acc, n, m: Eq(valid(lrev(l, acc), n, m), And(valid(l, n, m), valid(acc, n, m))), on='l', patterns=lambda l, acc, n, m: [valid(lrev(l, acc), n, m)])
Lemma('llen_pkeys', [('l', LV)], lambda l: Eq(llen(pkeys(l)), llen(l)), on='l', patterns=lambda l: [pkeys(l)])
Lemma('llen_ekeys', [('l', LE)], lambda l: Eq(llen(ekeys(l)), elen(l)), on='l', patterns=lambda l: [ekeys(l)])
Lemma('ekeys_rev', [('l', LE), ('acc', LE)], lambda l, acc: Eq(ekeys(erev(l, acc)), lrev(ekeys(l), ekeys(acc))), on='l', patterns=lambda l, acc: [erev(l, acc)])
order_lemmas = ('ekeys_rev', 'lapp_assoc', 'lapp_nil', 'omap_rev', 'valid_rev', 'llen_pkeys', 'llen_ekeys', 'llen_nonneg', 'elen_nonneg')
ordered_iter = Contract(
    'marsh.utils:SafeDict._ordered_iter', {'self': safe, 'reverse': 'bool'}, runtime=False, ret='gen', name='SafeDict.ordered_iter', short='sd_ordered',
    requires=lambda a: [pairs(uc(a)), Or(empty(uc(a)), valid(a.self._order, elen(hc(a)), llen(uc(a))))],
    cases=lambda a: [ret(True, Ite(a.reverse, lambda: lrev(oorder(a, a.self._order), ()), lambda: oorder(a, a.self._order), LV))],
    loops=[Loop(_pk_inv, name='unhashable keys'), Loop(_ord_inv, name='order')], lemmas=order_lemmas)
sd_iter = Contract('marsh.utils:SafeDict.__iter__', {'self': safe}, runtime=False, ret='gen', name='SafeDict.iter', short='sd_iter',
                   requires=lambda a: [pairs(uc(a)), Or(empty(uc(a)), valid(a.self._order, elen(hc(a)), llen(uc(a))))], cases=lambda a: [ret(True, oorder(a, a.self._order))], lemmas=order_lemmas)
sd_reversed = Contract('marsh.utils:SafeDict.__reversed__', {'self': safe}, runtime=False, ret='gen', name='SafeDict.reversed', short='sd_reversed',
                       requires=lambda a: [pairs(uc(a)), Or(empty(uc(a)), valid(a.self._order, elen(hc(a)), llen(uc(a))))], cases=lambda a: [ret(True, lrev(oorder(a, a.self._order), ()))], lemmas=order_lemmas)

# what a new key, a replaced value and a removed key do to the order
Lemma('C18_new_hashable', [('l', LV), ('K', LV), ('U', LV), ('k', Val)], lambda l, K, U, k: Implies(valid(l, llen(K), llen(U)), omap(l, lapp(K, lcons(k, ())), U) == omap(l, K, U)), on='l', uses=('llen_nonneg', 'lnth_appl'))
Lemma('C18_new_unhashable', [('l', LV), ('K', LV), ('U', LV), ('k', Val)], lambda l, K, U, k: Implies(valid(l, llen(K), llen(U)), omap(l, K, lapp(U, lcons(k, ()))) == omap(l, K, U)), on='l', uses=('llen_nonneg', 'lnth_appl'))
Lemma('ldel_lo', [('l', LV), ('i', Int), ('j', Int)], lambda l, i, j: Implies(And(0 <= j, j < i, i < llen(l)), lnth(ldel(l, i), j) == lnth(l, j)), on='l', uses=('llen_nonneg',))
Lemma('ldel_hi', [('l', LV), ('i', Int), ('j', Int)], lambda l, i, j: Implies(And(0 <= i, i <= j, j < llen(l)), lnth(ldel(l, i), j) == lnth(l, j + 1)), on='l', uses=('llen_nonneg',))
Lemma('C18_removed_other', [('l', LV), ('K', LV), ('U', LV), ('i', Int)],
      lambda l, K, U, i: Implies(And(0 <= i, i < llen(K), valid(l, llen(K), llen(U)), Not(hasent(l, True, i))), omap(rmo(l, True, i), ldel(K, i), U) == omap(l, K, U)), on='l', uses=('llen_nonneg', 'ldel_lo', 'ldel_hi'))
Lemma('C18_removed_other_u', [('l', LV), ('K', LV), ('U', LV), ('i', Int)],
      lambda l, K, U, i: Implies(And(0 <= i, i < llen(U), valid(l, llen(K), llen(U)), Not(hasent(l, False, i))), omap(rmo(l, False, i), K, ldel(U, i)) == omap(l, K, U)), on='l', uses=('llen_nonneg', 'ldel_lo', 'ldel_hi'))
Lemma('oposn_nonneg', [('l', LV), ('b', Bool), ('i', Int)], lambda l, b, i: oposn(l, b, i) >= 0, on='l', patterns=lambda l, b, i: [oposn(l, b, i)])
# the keys that stay keep their order
Lemma('C18_removed', [('l', LV), ('K', LV), ('U', LV), ('i', Int)],
      lambda l, K, U, i: Implies(And(0 <= i, i < llen(K), valid(l, llen(K), llen(U)), odist(l), hasent(l, True, i)), omap(rmo(l, True, i), ldel(K, i), U) == ldel(omap(l, K, U), oposn(l, True, i))), on='l',
      uses=('llen_nonneg', 'ldel_lo', 'ldel_hi', 'C18_removed_other', 'oposn_nonneg'))
Lemma('C18_removed_u', [('l', LV), ('K', LV), ('U', LV), ('i', Int)],
      lambda l, K, U, i: Implies(And(0 <= i, i < llen(U), valid(l, llen(K), llen(U)), odist(l), hasent(l, False, i)), omap(rmo(l, False, i), K, ldel(U, i)) == ldel(omap(l, K, U), oposn(l, False, i))), on='l',
      uses=('llen_nonneg', 'ldel_lo', 'ldel_hi', 'C18_removed_other_u', 'oposn_nonneg'))
# and the invariant of the order is kept: by removing ...
Lemma('valid_rm', [('l', LV), ('i', Int), ('n', Int), ('m', Int)], lambda l, i, n, m: Implies(And(valid(l, n, m), Not(hasent(l, True, i)), 0 <= i, i < n), valid(rmo(l, True, i), n - 1, m)), on='l')
Lemma('C18_inv_removed', [('l', LV), ('i', Int), ('n', Int), ('m', Int)], lambda l, i, n, m: Implies(And(valid(l, n, m), odist(l), 0 <= i, i < n), valid(rmo(l, True, i), n - 1, m)), on='l', uses=('valid_rm',))
Lemma('valid_rm_u', [('l', LV), ('i', Int), ('n', Int), ('m', Int)], lambda l, i, n, m: Implies(And(valid(l, n, m), Not(hasent(l, False, i)), 0 <= i, i < m), valid(rmo(l, False, i), n, m - 1)), on='l')
Lemma('C18_inv_removed_u', [('l', LV), ('i', Int), ('n', Int), ('m', Int)], lambda l, i, n, m: Implies(And(valid(l, n, m), odist(l), 0 <= i, i < m), valid(rmo(l, False, i), n, m - 1)), on='l', uses=('valid_rm_u',))
Lemma('hasent_rmo', [('l', LV), ('b', Bool), ('i', Int), ('c', Bool), ('j', Int)],
      lambda l, b, i, c, j: Implies(And(orders(l), Or(b != c, j != i), Not(hasent(l, c, j))), Not(hasent(rmo(l, b, i), c, Ite(And(b == c, j > i), j - 1, j, Int)))), on='l')
Lemma('C18_dist_removed', [('l', LV), ('b', Bool), ('i', Int)], lambda l, b, i: Implies(And(orders(l), odist(l)), odist(rmo(l, b, i))), on='l', uses=('hasent_rmo',))
# ... by a new key ...
Lemma('valid_app', [('l', LV), ('x', LV), ('n', Int), ('m', Int)], lambda l, x, n, m: Eq(valid(lapp(l, x), n, m), And(valid(l, n, m), valid(x, n, m))), on='l')
Lemma('valid_more', [('l', LV), ('n', Int), ('m', Int), ('n2', Int), ('m2', Int)], lambda l, n, m, n2, m2: Implies(And(valid(l, n, m), n <= n2, m <= m2), valid(l, n2, m2)), on='l')
Lemma('fresh_ent', [('l', LV), ('n', Int), ('m', Int)], lambda l, n, m: Implies(valid(l, n, m), And(Not(hasent(l, True, n)), Not(hasent(l, False, m)))), on='l')
Lemma('hasent_app', [('l', LV), ('x', LV), ('b', Bool), ('i', Int)], lambda l, x, b, i: Eq(hasent(lapp(l, x), b, i), Or(hasent(l, b, i), hasent(x, b, i))), on='l')
Lemma('C18_dist_new', [('l', LV), ('b', Bool), ('i', Int)], lambda l, b, i: Implies(And(odist(l), Not(hasent(l, b, i))), odist(lapp(l, lcons(pair(vbool(b), vint(i)), ())))), on='l', uses=('hasent_app',))
# ... and by the first key that can not be hashed
Lemma('C18_inv_first', [('e', LE), ('n', Int), ('i', Int), ('N', Int), ('m', Int)], lambda e, n, i, N, m: Implies(And(0 <= i, i + n <= N), valid(oseq(e, n, i), N, m)), on='e')
Lemma('oseq_has', [('e', LE), ('n', Int), ('i', Int), ('j', Int)], lambda e, n, i, j: Implies(j < i, Not(hasent(oseq(e, n, i), True, j))), on='e')
Lemma('C18_dist_first', [('e', LE), ('n', Int), ('i', Int)], lambda e, n, i: odist(oseq(e, n, i)), on='e', uses=('oseq_has',))
