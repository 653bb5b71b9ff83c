"""Contracts of marsh.parse (property C07).

A source under parsing is a list of one-character strings that the parsers
consume from the front; that list is an LV of one-character VStr here."""
import pyvc  # noqa
import z3
import marsh
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Const
from pyvc.builtin_models import is_space, int_ok, int_of, fl_ok, fl_of, to_lower
from . import kinds, element  # noqa

ParseError = marsh.parse.ParseError
BS, DQ, SQ = 92, 34, 39


def onech(v):
    return And(isS(v), Not(empty(ofS(v))), empty(stl(ofS(v)))) if isz(v) else (v[0] == 'S' and len(v[1]) == 1)


def ch(v):
    return sh(ofS(v))


allch = Rec('allch', [LV], Bool, lambda: True, lambda h, t: And(onech(h), allch(t)))
Lemma('allch_chars', [('s', Str)], lambda s: allch(chars(s)), on='s', patterns=lambda s: [chars(s)])
Lemma('allch_allstr', [('l', LV)], lambda l: Implies(allch(l), allstr(l)), on='l', patterns=lambda l: [allch(l)])
dropws = Rec('dropws', [LV], LV, lambda: (), lambda h, t: Ite(is_space(ch(h)), lambda: dropws(t), lambda: lcons(h, t)))
Lemma('allch_dropws', [('l', LV)], lambda l: Implies(allch(l), allch(dropws(l))), on='l', patterns=lambda l: [dropws(l)])


def rest_ok(a):
    """what is left of a source: still a list of characters"""
    return lambda t: [allch(t)]


consume_whitespace = Contract(
    'marsh.parse:consume_whitespace', {'source': 'lv'}, ret='none', requires=lambda a: [allch(a.source)],
    cases=lambda a: [ret(True, muts={'source': dropws(a.source)})],
    loops=[Loop(lambda v: [Eq(dropws(v.a.source), dropws(v.list('source'))), allch(v.list('source'))], name='skip')])

peek = Contract('marsh.parse:peek', {'source': 'lv'}, ret='str', requires=lambda a: [allch(a.source)],
                cases=lambda a: [ret(True, Ite(empty(a.source), (), lambda: ofS(lh(a.source)), Str))])
pop = Contract('marsh.parse:pop', {'source': 'lv'}, ret='str', requires=lambda a: [allch(a.source)],
               cases=lambda a: [ret(Not(empty(a.source)), lambda: ofS(lh(a.source)), muts={} if empty(a.source) is True else {'source': lt(a.source)}),
                                exc(empty(a.source), ValueError)])


# ------------------------------------------------------------------- string
# scanning the characters l of a string with terminal characters t, inside the
# quote q (0: none), e: after an escape character
def _stop(c, t, q):
    return And(Eq(q, 0), schar(t, c))


def _closes(c, q):
    return And(Ne(q, 0), Eq(c, q))


def _scan(nil, stop, close, esc, lit):
    """the same case analysis for the three results of a scan"""
    def cons(h, r, t, q, e, *acc):
        c = ch(h)
        return Ite(e, lambda: lit(h, r, t, q, *acc), lambda: Ite(_stop(c, t, q), lambda: stop(h, r, *acc), lambda:
               Ite(Eq(c, BS), lambda: esc(h, r, t, q, *acc), lambda: Ite(_closes(c, q), lambda: close(h, r, *acc), lambda: lit(h, r, t, q, *acc)))))
    return nil, cons


sg_ok = Rec('sg_ok', [LV, Str, Int, Bool], Bool, *_scan(
    lambda t, q, e: And(Eq(q, 0), Not(e)), lambda h, r: True, lambda h, r: True,
    lambda h, r, t, q: sg_ok(r, t, q, True), lambda h, r, t, q: sg_ok(r, t, q, False)))
sg = Rec('sg', [LV, Str, Int, Bool, Str], Str, *_scan(
    lambda t, q, e, acc: acc, lambda h, r, acc: acc, lambda h, r, acc: acc,
    lambda h, r, t, q, acc: sg(r, t, q, True, acc), lambda h, r, t, q, acc: sg(r, t, q, False, app(acc, ofS(h)))))
sg_rest = Rec('sg_rest', [LV, Str, Int, Bool], LV, *_scan(
    lambda t, q, e: (), lambda h, r: lcons(h, r), lambda h, r: r,
    lambda h, r, t, q: sg_rest(r, t, q, True), lambda h, r, t, q: sg_rest(r, t, q, False)))
Lemma('allch_rest', [('l', LV), ('t', Str), ('q', Int), ('e', Bool)], lambda l, t, q, e: Implies(allch(l), allch(sg_rest(l, t, q, e))), on='l',
      patterns=lambda l, t, q, e: [sg_rest(l, t, q, e)])


def isq(c):
    return Or(Eq(c, DQ), Eq(c, SQ))


def s_q(l0):
    return Ite(isq(ch(lh(l0))), lambda: ch(lh(l0)), 0, Int)


def s_body(l0):
    return Ite(isq(ch(lh(l0))), lambda: lt(l0), l0, LV)


def done_ok(rest, t):
    """after the parsed text only whitespace, or a terminal character"""
    l = dropws(rest)
    return Or(empty(l), lambda: 0) if False else Ite(empty(l), True, lambda: schar(t, ch(lh(l))), Bool)


def str_ok(l, t):
    l0 = dropws(l)
    return Ite(empty(l0), True, lambda: And(sg_ok(s_body(l0), t, s_q(l0), False), done_ok(sg_rest(s_body(l0), t, s_q(l0), False), t)), Bool)


def str_val(l, t):
    l0 = dropws(l)
    return Ite(empty(l0), (), lambda: sg(s_body(l0), t, s_q(l0), False, ()), Str)


def str_rest(l, t):
    l0 = dropws(l)
    return Ite(empty(l0), (), lambda: sg_rest(s_body(l0), t, s_q(l0), False), LV)


def _quote(v):
    q = v.val('quote')
    return Ite(isN(q), 0, lambda: sh(ofS(q)), Int)


def _str_inv(v):
    l0 = dropws(v.a.source if v.a.source.sort() == LV else chars(v.a.source))
    q, body, t = s_q(l0), s_body(l0), v.a.terminal_chars
    rest, cs, qv = v.list('source'), v.list('chars'), v.val('quote')
    return [
        Not(empty(l0)), allch(rest), allstr(cs),
        Or(isN(qv), And(isS(qv), Not(empty(ofS(qv))), empty(stl(ofS(qv))), isq(sh(ofS(qv))))),
        Eq(_quote(v), q),
        Eq(sg_ok(body, t, q, False), sg_ok(rest, t, q, False)),
        Eq(sg_rest(body, t, q, False), sg_rest(rest, t, q, False)),
        Eq(sg(body, t, q, False, ()), sg(rest, t, q, False, jcat(cs))),
    ]


string = Contract(
    'marsh.parse:string', {'source': 'lv', 'terminal_chars': 'str'}, ret='str', requires=lambda a: [allch(a.source)],
    cases=lambda a: [
        ret(str_ok(a.source, a.terminal_chars), lambda: str_val(a.source, a.terminal_chars), muts={'source': str_rest(a.source, a.terminal_chars)}, name='parsed'),
        exc(Not(str_ok(a.source, a.terminal_chars)), ParseError, muts={'source': rest_ok(a)}, name='rejected'),
    ],
    loops=[Loop(_str_inv, havoc={'quote': 'val', 'chars': 'lv', 'char': 'val'}, name='scan')],
    lemmas=('allch_dropws', 'allch_allstr', 'allch_rest', 'llen_nonneg', 'jcat_app', 'allstr_app', 'app_nil', 'app_assoc'))


# ----------------------------------------------------------------- terminal
TRUE, FALSE, NULL = L.S('true'), L.S('false'), L.S('null')


def t_val(v):
    """the terminal value that an unquoted text stands for"""
    return Ite(empty(v), lambda: vstr(v), lambda: Ite(int_ok(v), lambda: vint(int_of(v)), lambda: Ite(fl_ok(v), lambda: _t_float(fl_of(v)), lambda: _t_word(v), Val), Val), Val)


def _t_float(f):
    return Ite(fl_isint(f), lambda: vint(fl_trunc(f)), lambda: vfloat(f), Val)


def _t_word(v):
    w = to_lower(v)
    return Ite(Eq(w, TRUE), vbool(True), lambda: Ite(Eq(w, FALSE), vbool(False), lambda: Ite(Eq(w, NULL), VNone, lambda: vstr(v), Val), Val), Val)


def term_val(l, t):
    l0 = dropws(l)
    return Ite(empty(l0), lambda: vstr(()), lambda: Ite(isq(ch(lh(l0))), lambda: vstr(str_val(l, t)), lambda: t_val(str_val(l, t)), Val), Val)


Lemma('dropws_idem', [('l', LV)], lambda l: dropws(dropws(l)) == dropws(l), on='l', patterns=lambda l: [dropws(dropws(l))])
terminal = Contract(
    'marsh.parse:terminal', {'source': 'lv', 'terminal_chars': 'str'}, ret='val', requires=lambda a: [allch(a.source)],
    cases=lambda a: [
        ret(str_ok(a.source, a.terminal_chars), lambda: term_val(a.source, a.terminal_chars), muts={'source': str_rest(a.source, a.terminal_chars)}, name='parsed'),
        exc(Not(str_ok(a.source, a.terminal_chars)), ParseError, muts={'source': rest_ok(a)}, name='rejected'),
    ],
    lemmas=('allch_dropws', 'allch_allstr', 'allch_rest', 'dropws_idem'))


# --------------------------------------- elements, sequences and mappings
def bracket(c):
    return Or(Eq(c, 40), Eq(c, 91), Eq(c, 123))


def el_text(l):
    """the source starts with something other than an opening bracket"""
    l0 = dropws(l)
    return Or(empty(l0), Not(bracket(ch(lh(l0))))) if isz(l) else (not l0 or not bracket(ch(lh(l0))))


def contained(a, cond=True, **kw):
    """a result, or a ParseError; what is left of the source stays a source"""
    m = {'source': rest_ok(a)}
    return may(cond, ret(True, muts=m, **kw), exc(True, ParseError, muts=m), name='contained')


element = Contract(
    'marsh.parse:element', {'source': 'lv', 'terminal_chars': 'str'}, ret='val', requires=lambda a: [allch(a.source)],
    cases=lambda a: [
        ret(And(el_text(a.source), str_ok(a.source, a.terminal_chars)), lambda: term_val(a.source, a.terminal_chars),
            muts={'source': str_rest(a.source, a.terminal_chars)}, name='terminal'),
        exc(And(el_text(a.source), Not(str_ok(a.source, a.terminal_chars))), ParseError, muts={'source': rest_ok(a)}, name='bad terminal'),
        contained(a, Not(el_text(a.source))),
    ],
    lemmas=('allch_dropws', 'allch_allstr', 'allch_rest', 'dropws_idem'))

_inv = lambda *kinds: lambda v: [allch(v.list('source'))]
sequence = Contract(
    'marsh.parse:sequence', {'source': 'lv', 'terminal_chars': 'str', 'element_parser': Const(marsh.parse.element)}, ret='val',
    requires=lambda a: [allch(a.source)], cases=lambda a: [contained(a, where=lambda t: [isQ(t)])],
    loops=[Loop(_inv(), havoc={'value': 'lv'}, name='elements')],
    lemmas=('allch_dropws', 'allch_allstr', 'allch_rest'))
sequence_strings = Contract(
    'marsh.parse:sequence', {'source': 'lv', 'terminal_chars': 'str', 'element_parser': Const(marsh.parse.string)}, ret='val',
    name='marsh.parse.sequence of strings', short='sequence_strings',
    requires=lambda a: [allch(a.source)], cases=lambda a: [contained(a, where=lambda t: [isQ(t), allstr(ofQ(t))])],
    loops=[Loop(lambda v: [allch(v.list('source')), allstr(v.list('value'))], havoc={'value': 'lv'}, name='strings')],
    lemmas=('allch_dropws', 'allch_allstr', 'allch_rest', 'allstr_app'))
mapping = Contract(
    'marsh.parse:mapping', {'source': 'lv', 'terminal_chars': 'str', 'key_parser': Const(marsh.parse.string), 'value_parser': Const(marsh.parse.element)}, ret='val',
    requires=lambda a: [allch(a.source)], cases=lambda a: [contained(a, where=lambda t: [isM(t)])],
    loops=[Loop(_inv(), havoc={'value': 'le'}, name='items')],
    lemmas=('allch_dropws', 'allch_allstr', 'allch_rest'))


def _names_inv(v):
    return [allch(v.list('source')), allstr(v.list('names'))]


config_names = Contract(
    'marsh.parse:config_names', {'source': 'lv'}, ret='val', requires=lambda a: [allch(a.source)],
    cases=lambda a: [contained(a, where=lambda t: [isQ(t), allstr(ofQ(t))])], loops=[Loop(_names_inv, havoc={'names': 'lv'}, name='names')],
    lemmas=('allch_dropws', 'allch_allstr', 'allch_rest', 'allstr_app', 'allstr_lstr'))

# the entry points take text: from the first character on nothing but ParseError
for _f, _ret in (('string', 'str'), ('terminal', 'val')):
    Contract(f'marsh.parse:{_f}', {'source': 'str', 'terminal_chars': 'str'}, ret=_ret, variant=True, name=f'marsh.parse.{_f} of a text', short=f'{_f}_text',
             cases=(lambda fn: lambda a: [
                 ret(str_ok(chars(a.source), a.terminal_chars), lambda: fn(chars(a.source), a.terminal_chars), name='parsed'),
                 exc(Not(str_ok(chars(a.source), a.terminal_chars)), ParseError, name='rejected')])(str_val if _f == 'string' else term_val),
             loops=([Loop(lambda v: _str_inv(v), havoc={'quote': 'val', 'chars': 'lv', 'char': 'val'}, name='scan')] if _f == 'string' else []),
             lemmas=('allch_chars', 'allch_dropws', 'allch_allstr', 'allch_rest', 'llen_nonneg', 'jcat_app', 'allstr_app', 'app_nil', 'app_assoc', 'dropws_idem', 'jcat_chars'))
Contract('marsh.parse:element', {'source': 'str', 'terminal_chars': 'str'}, ret='val', variant=True, name='marsh.parse.element of a text', short='element_text',
         cases=lambda a: [
             ret(And(el_text(chars(a.source)), str_ok(chars(a.source), a.terminal_chars)), lambda: term_val(chars(a.source), a.terminal_chars), name='terminal'),
             exc(And(el_text(chars(a.source)), Not(str_ok(chars(a.source), a.terminal_chars))), ParseError, name='bad terminal'),
             may(Not(el_text(chars(a.source))), ret(True), exc(True, ParseError), name='contained')],
         lemmas=('allch_chars', 'allch_dropws', 'allch_allstr', 'allch_rest', 'dropws_idem', 'jcat_chars'))

TERMS = L.S('+=+@')


def o_body(l):
    l0 = dropws(l)
    return Ite(And(Not(empty(l0)), Eq(ch(lh(l0)), 126)), lambda: lt(l0), l0, LV)


def o_del(l):
    l0 = dropws(l)
    return And(Not(empty(l0)), Eq(ch(lh(l0)), 126))


def _override_result(l):
    """what kind of command, on which path, and whether it combines"""
    def f(e, st, out):
        c = st.heap[out.loc]
        r = str_rest(o_body(l), TERMS)
        plus = Eq(ch(lh(r)), 43)
        r2 = Ite(plus, lambda: lt(r), r, LV)
        p = e.coerce(st, c.fields['path'], 'str')
        goal = [*p[0], Eq(p[1], str_val(o_body(l), TERMS)), str_ok(o_body(l), TERMS)]
        if c.cls is marsh.parse.DeleteValue:
            return goal + [o_del(l), empty(dropws(r))]
        b = e.coerce(st, c.fields['combine'], 'bool')
        return goal + [Not(o_del(l)), *b[0], Eq(b[1], plus), Not(empty(r2)), Eq(ch(lh(r2)), 64 if c.cls is marsh.parse.SetConfig else 61)]
    return f


override_text = Contract('marsh.parse:override', {'source': 'str'}, ret='any', variant=True, name='marsh.parse.override of a text', short='override_text',
                         cases=lambda a: [may(True, ret(True, excwhere=_override_result(chars(a.source))), exc(True, ParseError), name='contained')],
                         lemmas=('allch_chars', 'allch_dropws', 'allch_allstr', 'allch_rest', 'dropws_idem', 'jcat_chars'))
