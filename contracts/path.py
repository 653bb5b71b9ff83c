"""Contracts of marsh.path (property C01)."""
import pyvc  # noqa
import z3
import marsh
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.contract import Contract, ret, exc, Loop
import pyvc.logic as L

PathError = marsh.errors.PathError
BS, DQ, SQ = 92, 34, 39


def special(c, d):
    return Or(Eq(c, DQ), Eq(c, SQ), Eq(c, BS), Eq(c, d))


def okd(d):
    """delimiter: one character, not a quote, not the escape character"""
    return And(Not(empty(d)), empty(stl(d)), Ne(sh(d), 0), Ne(sh(d), DQ), Ne(sh(d), SQ), Ne(sh(d), BS))


# remaining fields of a path, scanned from a state (f: characters of the
# current field, q: open quote or 0, e: after an escape character)
def _emit(f, rest):
    return Ite(empty(f), rest, lambda: lcons(vstr(f), rest() if callable(rest) and not isz(rest) else rest))


def _go_cons(c, r, d, f, q, e):
    return Ite(e, lambda: go(r, d, snoc(f, c), q, False), lambda:
           Ite(Eq(c, BS), lambda: go(r, d, f, q, True), lambda:
           Ite(Ne(q, 0), lambda: Ite(Eq(c, q), lambda: go(r, d, f, 0, False), lambda: go(r, d, snoc(f, c), q, False)), lambda:
           Ite(Or(Eq(c, DQ), Eq(c, SQ)), lambda: go(r, d, f, c, False), lambda:
           Ite(Eq(c, d), lambda: _emit(f, lambda: go(r, d, (), 0, False)), lambda: go(r, d, snoc(f, c), 0, False))))))


go = Rec('go', [Str, Int, Str, Int, Bool], LV, lambda d, f, q, e: Ite(empty(f), (), lambda: lcons(vstr(f), ()), LV), _go_cons)


def _gook_cons(c, r, d, q, e):
    return Ite(e, lambda: go_ok(r, d, q, False), lambda:
           Ite(Eq(c, BS), lambda: go_ok(r, d, q, True), lambda:
           Ite(Ne(q, 0), lambda: Ite(Eq(c, q), lambda: go_ok(r, d, 0, False), lambda: go_ok(r, d, q, False)), lambda:
           Ite(Or(Eq(c, DQ), Eq(c, SQ)), lambda: go_ok(r, d, c, False), lambda: go_ok(r, d, 0, False)))))


go_ok = Rec('go_ok', [Str, Int, Int, Bool], Bool, lambda d, q, e: And(Eq(q, 0), Not(e)), _gook_cons)
# what the fields yielded before an error are
def _goe_cons(c, r, d, f, q, e):
    return Ite(e, lambda: go_err(r, d, snoc(f, c), q, False), lambda:
           Ite(Eq(c, BS), lambda: go_err(r, d, f, q, True), lambda:
           Ite(Ne(q, 0), lambda: Ite(Eq(c, q), lambda: go_err(r, d, f, 0, False), lambda: go_err(r, d, snoc(f, c), q, False)), lambda:
           Ite(Or(Eq(c, DQ), Eq(c, SQ)), lambda: go_err(r, d, f, c, False), lambda:
           Ite(Eq(c, d), lambda: _emit(f, lambda: go_err(r, d, (), 0, False)), lambda: go_err(r, d, snoc(f, c), 0, False))))))


go_err = Rec('go_err', [Str, Int, Str, Int, Bool], LV, lambda d, f, q, e: (), _goe_cons)


def fields(p, d):
    return go(p, d, (), 0, False)


def parseable(p, d):
    return go_ok(p, d, 0, False)


esc = Rec('esc', [Str, Int], Str, lambda d: (), lambda c, r, d: Ite(special(c, d), lambda: scons(BS, scons(c, esc(r, d))), lambda: scons(c, esc(r, d))))
jf_tail = Rec('jf_tail', [LV, Int], Str, lambda d: (), lambda h, t, d: scons(d, app(esc(ofS(h), d), jf_tail(t, d))))
# delimiter.join of the escaped fields, of a list without empty fields
jf = Rec('jf', [LV, Int], Str, lambda d: (), lambda h, t, d: app(esc(ofS(h), d), jf_tail(t, d)))
lesc = Rec('lesc', [LV, Int], LV, lambda d: (), lambda h, t, d: lcons(vstr(esc(ofS(h), d)), lesc(t, d)))
nonempty = Rec('nonempty', [LV], Bool, lambda: True, lambda h, t: And(isS(h), Not(empty(ofS(h))), nonempty(t)))

# ---------------------------------------------------------------- lemmas
def _d(d):
    return And(Ne(d, BS), Ne(d, DQ), Ne(d, SQ))


Lemma('go_ok_esc', [('s', Str), ('rest', Str), ('d', Int)],
      lambda s, rest, d: Implies(_d(d), go_ok(app(esc(s, d), rest), d, 0, False) == go_ok(rest, d, 0, False)),
      on='s', patterns=lambda s, rest, d: [go_ok(app(esc(s, d), rest), d, 0, False)])
Lemma('go_esc', [('s', Str), ('rest', Str), ('d', Int), ('f', Str)],
      lambda s, rest, d, f: Implies(_d(d), go(app(esc(s, d), rest), d, f, 0, False) == go(rest, d, app(f, s), 0, False)),
      on='s', patterns=lambda s, rest, d, f: [go(app(esc(s, d), rest), d, f, 0, False)],
      uses=('app_nil', 'app_assoc'))
Lemma('esc_empty', [('s', Str), ('d', Int)], lambda s, d: empty(esc(s, d)) == empty(s), on='s', patterns=lambda s, d: [esc(s, d)])
Lemma('go_esc0', [('s', Str), ('d', Int)],
      lambda s, d: Implies(_d(d), z3.And(fields(esc(s, d), d) == Ite(empty(s), LV.lnil, LV.lcons(Val.VStr(s), LV.lnil)), parseable(esc(s, d), d))),
      patterns=lambda s, d: [esc(s, d)], uses=('go_esc', 'go_ok_esc', 'app_nil'),
      by=lambda s, d: [('app_nil', (esc(s, d),)), ('app_nil', (s,)), ('go_esc', (s, (), d, ())), ('go_ok_esc', (s, (), d))])
Lemma('go_jft', [('l', LV), ('d', Int), ('f', Str)],
      lambda l, d, f: Implies(And(_d(d), nonempty(l), Not(empty(f))), z3.And(
          go(jf_tail(l, d), d, f, 0, False) == LV.lcons(Val.VStr(f), l), go_ok(jf_tail(l, d), d, 0, False))),
      on='l', patterns=lambda l, d, f: [go(jf_tail(l, d), d, f, 0, False)], uses=('go_esc', 'go_ok_esc', 'app_nil', 'app_assoc', 'app_empty'))
Lemma('go_jf', [('l', LV), ('d', Int)],
      lambda l, d: Implies(And(_d(d), nonempty(l)), z3.And(fields(jf(l, d), d) == l, parseable(jf(l, d), d))),
      on='l', patterns=lambda l, d: [jf(l, d)], uses=('go_esc', 'go_ok_esc', 'go_jft', 'app_nil'))
# removing a trailing delimiter that is not escaped changes nothing
lste = Rec('lste', [Str, Bool], Bool, lambda b: b, lambda c, r, b: lste(r, Eq(c, BS)))      # does it end in an escape character
_sd = lambda s, d: app(s, Str.scons(d, Str.snil))
Lemma('lste_slast', [('s', Str), ('b', Bool)], lambda s, b: lste(s, b) == z3.If(empty(s), b, slast(s) == BS), on='s', patterns=lambda s, b: [lste(s, b)])
Lemma('lste_mono', [('s', Str), ('b', Bool)], lambda s, b: z3.And(Implies(lste(s, False), lste(s, b)), Implies(lste(s, b), lste(s, True))), uses=('lste_slast',), patterns=lambda s, b: [lste(s, b)])
Lemma('rst_ok', [('s', Str), ('d', Int), ('q', Int), ('e', Bool)],
      lambda s, d, q, e: Implies(And(_d(d), d != 0, q != d, go_ok(_sd(s, d), d, q, e), Not(go_ok(s, d, q, e))), lste(s, e)), on='s',
      patterns=lambda s, d, q, e: [go_ok(_sd(s, d), d, q, e)], uses=('lste_mono',))
Lemma('rst', [('s', Str), ('d', Int), ('f', Str), ('q', Int), ('e', Bool)],
      lambda s, d, f, q, e: Implies(And(_d(d), d != 0, q != d, go_ok(_sd(s, d), d, q, e), go_ok(s, d, q, e)),
                                    go(_sd(s, d), d, f, q, e) == go(s, d, f, q, e)), on='s',
      patterns=lambda s, d, f, q, e: [go(_sd(s, d), d, f, q, e)])
Lemma('rst2', [('s', Str), ('d', Int)],
      lambda s, d: Implies(And(_d(d), d != 0, parseable(_sd(s, d), d), Or(empty(s), slast(s) != BS)),
                           z3.And(fields(_sd(s, d), d) == fields(s, d), parseable(s, d))),
      patterns=lambda s, d: [_sd(s, d)], uses=('rst', 'rst_ok', 'lste_slast'), hints=lambda s, d: [fields(_sd(s, d), d), parseable(_sd(s, d), d), parseable(s, d), lste(s, False)])
Lemma('strip_last', [('s', Str), ('d', Int)],
      lambda s, d: Implies(And(_d(d), d != 0, Not(empty(s)), slast(s) == d, Or(empty(sinit(s)), slast(sinit(s)) != BS), parseable(s, d)),
                           z3.And(fields(sinit(s), d) == fields(s, d), parseable(sinit(s), d))),
      patterns=lambda s, d: [(sinit(s), parseable(s, d))], uses=('rst2', 'init_last'))
Lemma('go_append', [('x', Str), ('rest', Str), ('d', Int), ('f', Str), ('q', Int), ('e', Bool)],
      lambda x, rest, d, f, q, e: Implies(And(_d(d), go_ok(x, d, q, e)), z3.And(
          go(app(x, Str.scons(d, rest)), d, f, q, e) == lapp(go(x, d, f, q, e), go(rest, d, Str.snil, 0, False)),
          go_ok(app(x, Str.scons(d, rest)), d, q, e) == go_ok(rest, d, 0, False))),
      on='x', patterns=lambda x, rest, d, f, q, e: [go(app(x, Str.scons(d, rest)), d, f, q, e)], uses=('lapp_nil', 'lapp_assoc'))
Lemma('lesc_app', [('a', LV), ('b', LV), ('d', Int)], lambda a, b, d: lesc(lapp(a, b), d) == lapp(lesc(a, d), lesc(b, d)), on='a',
      patterns=lambda a, b, d: [lesc(lapp(a, b), d)])
Lemma('lesc_str', [('a', LV), ('d', Int)], lambda a, d: allstr(lesc(a, d)), on='a', patterns=lambda a, d: [lesc(a, d)])
Lemma('jf_tail_join', [('a', LV), ('d', Int)], lambda a, d: jtail(lesc(a, d), Str.scons(d, Str.snil)) == jf_tail(a, d), on='a',
      patterns=lambda a, d: [jtail(lesc(a, d), Str.scons(d, Str.snil))])
Lemma('jf_join', [('a', LV), ('d', Int)], lambda a, d: sjoin(lesc(a, d), Str.scons(d, Str.snil)) == jf(a, d), on='a',
      patterns=lambda a, d: [sjoin(lesc(a, d), Str.scons(d, Str.snil))], uses=('jf_tail_join',))
Lemma('ltruthy_nonempty', [('a', LV)], lambda a: Implies(allstr(a), nonempty(ltruthy(a))), on='a', patterns=lambda a: [ltruthy(a)])
Lemma('nonempty_truthy', [('a', LV)], lambda a: Implies(nonempty(a), ltruthy(a) == a), on='a', patterns=lambda a: [ltruthy(a)])
Lemma('nonempty_allstr', [('a', LV)], lambda a: Implies(nonempty(a), allstr(a)), on='a', patterns=lambda a: [nonempty(a)])
Lemma('go_nonempty', [('p', Str), ('d', Int), ('f', Str), ('q', Int), ('e', Bool)], lambda p, d, f, q, e: nonempty(go(p, d, f, q, e)), on='p',
      patterns=lambda p, d, f, q, e: [go(p, d, f, q, e)])
Lemma('nonempty_init', [('a', LV)], lambda a: Implies(nonempty(a), nonempty(linit(a))), on='a', patterns=lambda a: [linit(a)])
Lemma('nonempty_last', [('a', LV)], lambda a: Implies(And(nonempty(a), Not(empty(a))), isS(llast(a))), on='a', patterns=lambda a: [llast(a)])
Lemma('app_empty_both', [('a', Str), ('b', Str)], lambda a, b: empty(app(a, b)) == z3.And(empty(a), empty(b)), on='a', patterns=lambda a, b: [app(a, b)])
Lemma('jf_empty', [('l', LV), ('d', Int)], lambda l, d: Implies(nonempty(l), empty(jf(l, d)) == empty(l)), on='l', patterns=lambda l, d: [jf(l, d)], uses=('esc_empty', 'app_empty_both'))
# property level: joining fields and splitting gives them back
Lemma('C01_split_join', [('l', LV), ('d', Int)],
      lambda l, d: Implies(And(_d(d), allstr(l)), z3.And(fields(jf(ltruthy(l), d), d) == ltruthy(l), parseable(jf(ltruthy(l), d), d))),
      uses=('go_jf', 'ltruthy_nonempty'))

# ------------------------------------------------------------- contracts
def _args_d(a):
    return [okd(a.delimiter)]


def quote_of(view):
    """open quote as an int (0 = none) of the Optional[str] variable"""
    t = view.val('quote')
    return Ite(isN(t), 0, lambda: sh(ofS(t)))


def split_inv(v):
    d = sh(v.a.delimiter)
    qv = v.val('quote')
    q = quote_of(v)
    e = v.bool('escaped')
    fl = v.list('field')
    f = jcat(fl)
    return [
        Or(isN(qv), And(isS(qv), Not(empty(ofS(qv))), empty(stl(ofS(qv))), Or(Eq(sh(ofS(qv)), DQ), Eq(sh(ofS(qv)), SQ)))),
        allstr1(fl),
        Eq(go(v.all, d, (), 0, False), lapp(v.yields, go(v.rest, d, f, q, e))),
        Eq(go_err(v.all, d, (), 0, False), lapp(v.yields, go_err(v.rest, d, f, q, e))),
        Eq(go_ok(v.all, d, 0, False), go_ok(v.rest, d, q, e)),
    ]


# list of one-character strings (so that it is empty iff its join is)
allstr1 = Rec('allstr1', [LV], Bool, lambda: True, lambda h, t: And(isS(h), Not(empty(ofS(h))), allstr1(t)))
Lemma('allstr1_app', [('a', LV), ('b', LV)], lambda a, b: allstr1(lapp(a, b)) == z3.And(allstr1(a), allstr1(b)), on='a', patterns=lambda a, b: [allstr1(lapp(a, b))])
Lemma('allstr1_allstr', [('a', LV)], lambda a: Implies(allstr1(a), z3.And(allstr(a), empty(jcat(a)) == empty(a))), on='a', patterns=lambda a: [jcat(a)], uses=('app_empty',))

iterative_split = Contract(
    'marsh.path:iterative_split', {'path': 'str', 'delimiter': 'str'}, ret='gen',
    requires=lambda a: [okd(a.delimiter)],
    cases=lambda a: [
        ret(parseable(a.path, sh(a.delimiter)), fields(a.path, sh(a.delimiter)), name='parses'),
        ret(Not(parseable(a.path, sh(a.delimiter))), go_err(a.path, sh(a.delimiter), (), 0, False), exc=PathError, path=(), name='error'),
    ],
    loops=[Loop(split_inv, havoc={'quote': 'val', 'field': 'lv'}, name='scan')],
    lemmas=('allstr1_app', 'allstr1_allstr', 'jcat_app', 'app_nil', 'app_assoc', 'lapp_nil', 'lapp_assoc'))

split = Contract(
    'marsh.path:split', {'path': 'str', 'delimiter': 'str'}, ret='tuplelv',
    requires=_args_d,
    cases=lambda a: [
        ret(parseable(a.path, sh(a.delimiter)), fields(a.path, sh(a.delimiter))),
        exc(Not(parseable(a.path, sh(a.delimiter))), PathError, path=()),
    ])

escape_field = Contract(
    'marsh.path:escape_field', {'field': 'str', 'delimiter': 'str'}, ret='str', requires=_args_d,
    cases=lambda a: [ret(True, esc(a.field, sh(a.delimiter)))],
    loops=[Loop(lambda v: [allstr(v.list('chars')),
                           Eq(esc(v.all, sh(v.a.delimiter)), app(jcat(v.list('chars')), esc(v.rest, sh(v.a.delimiter))))], name='escape')],
    lemmas=('jcat_app', 'allstr_app', 'app_nil', 'app_assoc'))

strip_delimiter = Contract(
    'marsh.path:strip_delimiter', {'field_or_path': 'str', 'delimiter': 'str'}, ret='str', requires=_args_d,
    cases=lambda a: [ret(True, where=lambda t: [
        Implies(parseable(a.field_or_path, sh(a.delimiter)), And(parseable(t, sh(a.delimiter)), Eq(fields(t, sh(a.delimiter)), fields(a.field_or_path, sh(a.delimiter)))))])],
    loops=[Loop(lambda v: [Implies(parseable(v.a.field_or_path, sh(v.a.delimiter)), And(
        parseable(v.str('field_or_path'), sh(v.a.delimiter)),
        Eq(fields(v.str('field_or_path'), sh(v.a.delimiter)), fields(v.a.field_or_path, sh(v.a.delimiter)))))], name=n) for n in ('strip left', 'strip right')],
    lemmas=('strip_last',))


def _prepend_cases(before):
    def f(a):
        d = sh(a.delimiter)
        fl = Ite(empty(a.field), (), lambda: lcons(vstr(a.field), ()), LV)
        return [ret(True, where=lambda t: [Implies(parseable(a.path, d), And(
            parseable(t, d), Eq(fields(t, d), lapp(fl, fields(a.path, d)) if before else lapp(fields(a.path, d), fl))))])]
    return f


prepend = Contract('marsh.path:prepend', {'path': 'str', 'field': 'str', 'delimiter': 'str'}, ret='str', requires=_args_d,
                   cases=_prepend_cases(True), lemmas=('go_esc', 'go_ok_esc', 'go_esc0', 'app_nil', 'app_assoc', 'esc_empty'))
append = Contract('marsh.path:append', {'path': 'str', 'field': 'str', 'delimiter': 'str'}, ret='str', requires=_args_d,
                  cases=_prepend_cases(False), lemmas=('go_append', 'go_esc0', 'app_nil', 'app_assoc', 'lapp_nil', 'esc_empty'))

join_fields = Contract(
    'marsh.path:join_fields', {'fields': 'lv', 'delimiter': 'str'}, ret='str',
    requires=lambda a: [okd(a.delimiter), allstr(a.fields)],
    cases=lambda a: [ret(True, jf(ltruthy(a.fields), sh(a.delimiter)))],
    loops=[Loop(lambda v: [Eq(v.acc, lesc(v.done, sh(v.a.delimiter))), nonempty(v.rest)], name='join')],
    lemmas=('lesc_app', 'lesc_str', 'jf_join', 'lapp_nil', 'ltruthy_nonempty'))


def _head_cases(a, tail=False):
    d = sh(a.delimiter)
    f = fields(a.path, d)
    ok = parseable(a.path, d)
    return [
        ret(And(ok, empty(f)), ((), ()), name='no field'),
        ret(And(ok, Not(empty(f))), (ofS(llast(f) if tail else lh(f)), jf(linit(f) if tail else lt(f), d)), name='field'),
        exc(Not(ok), PathError, path=(), name='error'),
    ]


head = Contract('marsh.path:head', {'path': 'str', 'delimiter': 'str'}, ret=('tuple', 'str', 'str'), requires=_args_d, retcls=getattr(marsh.path, '_head_return_value', None),
                cases=_head_cases, lemmas=('go_nonempty', 'nonempty_truthy', 'nonempty_allstr'))
tail = Contract('marsh.path:tail', {'path': 'str', 'delimiter': 'str'}, ret=('tuple', 'str', 'str'), requires=_args_d, retcls=getattr(marsh.path, '_tail_return_value', None),
                cases=lambda a: _head_cases(a, True), lemmas=('go_nonempty', 'nonempty_truthy', 'nonempty_allstr', 'nonempty_init', 'nonempty_last', 'linit_last'))
