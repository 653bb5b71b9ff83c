"""Contracts of config files and the entry point (properties C22, C25).

The file system is a constant unknown: which paths exist, what a directory lists,
what loading a file gives are unknown functions of the path."""
import argparse
import os
import pyvc  # noqa
import z3
import marsh
import marsh.entry_point
from marsh import config as mc
from marsh.errors import ConfigFileError, MarshError, PathError
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, O, It, ExcV, OtherError
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc, may, Loop, Obj, Const, Opq
from .kinds import missing
from .schemas import Abstract, at
from .element import mfold, ov
from . import structured, types as _types  # noqa

f_stem = Unint('f_stem', [Str], Str, doc='os.path.splitext(path)[0]')
f_ext = Unint('f_ext', [Str], Str, doc='os.path.splitext(path)[1]')
f_exists = Unint('f_exists', [Str], Bool, doc='does a path exist')
f_isdir = Unint('f_isdir', [Str], Bool, doc='is a path a directory')
f_isfile = Unint('f_isfile', [Str], Bool, doc='is a path a file')
f_list = Unint('f_list', [Str], LV, doc='the names that a directory lists')
f_dir = Unint('f_dir', [Str], Str, doc='os.path.dirname')
f_base = Unint('f_base', [Str], Str, doc='os.path.basename')
f_join = Unint('f_join', [Str, Str], Str, doc='os.path.join')
CN = Abstract('CN', [Str], 'what selecting a config schema for a path does (ok: there is one)')
CL = Abstract('CL', [Str], 'what loading a config file does')
RS = Abstract('RS', [Val], 'what resolving the interpolations of an element does')


def fs_setup(e, st):
    def fn(f, sort):
        def model(e, st, args, kw):
            if kw:
                raise E.Unsupported('keyword arguments')
            states, ts = [st], []
            conds = []
            for a in args:
                cs, t = e.coerce(st, a, 'str')
                conds += cs
                ts.append(t)
            for st1, b in e.fork(st, And(*conds)):
                if not b:
                    yield e.throw(st1, TypeError)
                elif sort == 'list':
                    t = f(*ts)
                    st1.assume(allstr(t))
                    yield st1, e.new_list(st1, t)
                elif sort == 'split':
                    st1.assume(Eq(app(f_stem(ts[0]), f_ext(ts[0])), ts[0]))
                    yield st1, T([S('str', f_stem(ts[0])), S('str', f_ext(ts[0]))])
                else:
                    yield st1, e.norm(S(sort, f(*ts)))
        return model
    e.models[os.path.splitext] = fn(None, 'split')
    for f, g, s in ((os.path.exists, f_exists, 'bool'), (os.path.isdir, f_isdir, 'bool'), (os.path.isfile, f_isfile, 'bool'), (os.path.dirname, f_dir, 'str'),
                    (os.path.basename, f_base, 'str'), (os.path.join, f_join, 'str'), (os.listdir, f_list, 'list')):
        e.models[f] = fn(g, s)

    def schema(e, st, args, kw):
        cs, p = e.coerce(st, args[0], 'str')
        if cs or kw or len(args) != 1:
            raise E.Unsupported('ConfigSchema of something else')
        for st1, r in CN.outcomes(e, st, [p]):
            yield (st1, r) if isinstance(r, ExcV) else (st1, O(vstr(p), 'cschema'))
    e.models[mc.ConfigSchema] = schema
    e.meth_models[('cschema', 'load')] = lambda e, st, r, args, kw: CL.outcomes(e, st, [ofS(r.t)])


STR = {'path': 'str'}
has_ext = Contract('marsh.config:has_ext', STR, ret='bool', runtime=False, setup=fs_setup, cases=lambda a: [ret(True, Not(empty(f_ext(a.path))))])
strip = lambda p: Ite(empty(f_ext(p)), p, lambda: f_stem(p), Str)  # noqa
strip_ext = Contract('marsh.config:strip_ext', STR, ret='str', runtime=False, setup=fs_setup, cases=lambda a: [ret(True, strip(a.path))])
get_ext = Contract('marsh.config:get_ext', {'path_or_ext': 'str'}, ret='str', runtime=False, setup=fs_setup,
                   cases=lambda a: [ret(True, Ite(empty(f_ext(a.path_or_ext)), lambda: f_stem(a.path_or_ext), lambda: f_ext(a.path_or_ext), Str))])
supported = Contract('marsh.config:config_type_is_supported', STR, ret='bool', runtime=False, setup=fs_setup, short='supported', cases=lambda a: [ret(True, CN.ok(a.path))])


def hit(h, d, n):
    p = ofS(h)
    return And(f_isfile(f_join(d, p)), CN.ok(p), Eq(strip(p), n))


hits = Rec('hits', [LV, Str, Str], LV, lambda d, n: (), lambda h, t, d, n: Ite(hit(h, d, n), lambda: lcons(vstr(f_join(d, ofS(h))), hits(t, d, n)), lambda: hits(t, d, n)))


def found(p):
    return hits(f_list(here(p)), f_dir(p), f_base(p))


def here(p):
    return Ite(empty(f_dir(p)), L.S('.'), lambda: f_dir(p), Str)


def fc_ok(p):
    return Ite(empty(f_ext(p)), lambda: And(f_isdir(here(p)), Not(empty(found(p))), empty(lt(found(p)))), lambda: f_exists(p), Bool)


def fc_val(p):
    return Ite(empty(f_ext(p)), lambda: ofS(lh(found(p))), p, Str)


Lemma('hits_str', [('l', LV), ('d', Str), ('n', Str)], lambda l, d, n: allstr(hits(l, d, n)), on='l', patterns=lambda l, d, n: [hits(l, d, n)])
Lemma('allstr_app', [('a', LV), ('b', LV)], lambda a, b: allstr(lapp(a, b)) == And(allstr(a), allstr(b)), on='a', patterns=lambda a, b: [allstr(lapp(a, b))]) if 'allstr_app' not in LEMMAS else None
find_config = Contract(
    'marsh.config:find_config', {'target': 'str'}, ret='str', runtime=False, setup=fs_setup,
    cases=lambda a: [ret(fc_ok(a.target), lambda: fc_val(a.target)), exc(Not(fc_ok(a.target)), ConfigFileError)],
    loops=[Loop(lambda v: [Eq(lapp(v.list('paths'), hits(v.rest, f_dir(v.a.target), f_base(v.a.target))), found(v.a.target)), allstr(v.rest), allstr(v.list('paths'))], havoc={'names': 'lv', 'paths': 'lv'}, name='files')],
    lemmas=('lapp_assoc', 'lapp_nil', 'hits_str', 'allstr_app', 'llen_nonneg'))

# ------------------------------------------------------------- loading
META = vstr(L.S(mc.meta_key))


def dropped(x):
    return Ite(And(isM(x), ehas(ofM(x), META)), lambda: vmap(DICT, edel(ofM(x), META)), x, Val)


drop_meta = Contract('marsh.config:drop_meta', {'config': 'val'}, runtime=True, cases=lambda a: [ret(True, dropped(a.config))], ret='val', short='drop_meta', lemmas=())

OC = Abstract('OC', [Val], 'what OmegaConf makes of a standardized element (interpolations resolved)')
oc_base = Unint('oc_base', [Val], Bool, doc='does OmegaConf reject an element with an error of its own')
import omegaconf  # noqa
OCE = omegaconf.errors.OmegaConfBaseException


def oc_setup(e, st):
    def create(e, st, args, kw):
        if len(args) != 1 or kw:
            raise E.Unsupported('OmegaConf.create')
        yield st, O(e.to_val(st, args[0]), 'omega')

    def to_container(e, st, args, kw):
        if len(args) != 1 or {k: getattr(v, 'obj', None) for k, v in kw.items()} != dict(resolve=True, enum_to_str=True):
            raise E.Unsupported('OmegaConf.to_container')
        t = args[0].t
        for st1, b in e.fork(st, OC.ok(t)):
            if b:
                st1.assume(wfv(OC.val(t)))
                yield st1, e.norm(S('val', OC.val(t)))
            else:
                for st2, own in e.fork(st1, oc_base(t)):
                    yield e.throw(st2, OCE if own else ValueError)
    e.models[omegaconf.OmegaConf.create] = create
    e.models[omegaconf.OmegaConf.to_container] = to_container


def plainprim(x):
    return Or(isN(x), isB(x), isI(x), isF(x), isS(x))


def resolve_cases(a, pre=True, x=None):
    x = a.element if x is None else x
    y = std(x)
    return [ret(And(pre, plainprim(x)), x), ret(And(pre, Not(plainprim(x)), OC.ok(y)), lambda: OC.val(y)),
            exc(And(pre, Not(plainprim(x)), Not(OC.ok(y)), oc_base(y)), OCE), exc(And(pre, Not(plainprim(x)), Not(OC.ok(y)), Not(oc_base(y))), MarshError)]


from .element import std  # noqa
resolve = Contract('marsh.element:resolve', {'element': 'val'}, runtime=False, setup=oc_setup, extra=lambda e, st, a: [wfv(a.element)], cases=resolve_cases)


def cfg_name(h, root):
    s = ofS(h)
    return Ite(And(isS(root), Not(empty(ofS(root))), Not(And(Not(empty(s)), Eq(sh(s), 47)))), lambda: f_join(ofS(root), s), s, Str)


def one_ok(p):
    return And(fc_ok(p), CN.ok(fc_val(p)), CL.ok(fc_val(p)))


cfg_ok = Rec('cfg_ok', [LV, Val], Bool, lambda r: True, lambda h, t, r: And(one_ok(cfg_name(h, r)), cfg_ok(t, r)))
cfg_vals = Rec('cfg_vals', [LV, Val], LV, lambda r: (), lambda h, t, r: lcons(CL.val(fc_val(cfg_name(h, r))), cfg_vals(t, r)))


def load_cases(a):
    ns = lcons(vstr(a.name), a.names)
    ok = cfg_ok(ns, a.root)
    x = mfold(cfg_vals(a.names, a.root), CL.val(fc_val(cfg_name(vstr(a.name), a.root))), a.concatenate)
    y = std(x)
    res = And(a.resolve, Or(isM(x), isQ(x)))
    out = lambda z: Ite(a.keep_meta, z, lambda: dropped(z), Val)  # noqa
    return [exc(Not(ok), Exception, name='a config that can not be found or loaded'),
            ret(And(ok, Not(res)), lambda: out(x), name='merged'), ret(And(ok, res, OC.ok(y)), lambda: out(OC.val(y)), name='merged and resolved'),
            exc(And(ok, res, Not(OC.ok(y))), Exception, name='can not be resolved')]


def _load_inv(v):
    r = v.a.root
    full = lcons(vstr(v.a.name), v.a.names)
    return [Eq(lapp(v.list('configs'), cfg_vals(v.rest, r)), cfg_vals(full, r)), Eq(cfg_ok(full, r), cfg_ok(v.rest, r)), allstr(v.rest)]


load = Contract('marsh.config:load', {'name': 'str', 'names': 'tuplelv', 'root': 'val', 'resolve': 'bool', 'keep_meta': 'bool', 'concatenate': 'bool'}, runtime=False, setup=fs_setup,
                requires=lambda a: [allstr(a.names), Or(isN(a.root), isS(a.root))], cases=load_cases, loops=[Loop(_load_inv, name='configs')], lemmas=('lapp_assoc', 'lapp_nil'), prune=True)

# ------------------------------------------------------------- overrides of the command line
from marsh import parse as mp  # noqa
from .element import rm, ov_ok, ov_err, sel_ok, sel_err  # noqa
from .path import fields, parseable  # noqa
DOT = 46


def ov_cases(path, x, new, comb, pre=True):
    fs, ok = fields(path, DOT), parseable(path, DOT)
    return [ret(And(pre, ok, ov_ok(fs, x)), lambda: ov(fs, x, new, comb)), exc(And(pre, ok, Not(ov_ok(fs, x))), PathError, at(ov_err(fs, x))), exc(And(pre, Not(ok)), PathError, ())]


set_value = Contract('marsh.parse:SetValue.apply', {'self': Obj(mp.SetValue, path='str', value='val', combine='bool'), 'element': 'val'}, runtime=False, name='SetValue.apply', short='set_value',
                     cases=lambda a: ov_cases(a.self.path, a.element, a.self.value, a.self.combine))


def del_cases(a):
    p, x = a.self.path, a.element
    fs, ok, box = fields(p, DOT), parseable(p, DOT), Or(isM(x), isQ(x))
    return [exc(Not(box), PathError, name='no container'), exc(And(box, Not(ok)), PathError, (), name='malformed path'), exc(And(box, ok, empty(fs)), ValueError, name='no path'),
            ret(And(box, ok, Not(empty(fs)), sel_ok(fs, x)), lambda: rm(fs, x)), exc(And(box, ok, Not(empty(fs)), Not(sel_ok(fs, x))), PathError, at(sel_err(fs, x)), name='no such path')]


del_value = Contract('marsh.parse:DeleteValue.apply', {'self': Obj(mp.DeleteValue, path='str'), 'element': 'val'}, runtime=False, name='DeleteValue.apply', short='del_value', cases=del_cases)


def loaded(ns, root, keep, res=True):
    """(is there a result, the result) of loading configs with concatenation"""
    x = mfold(cfg_vals(lt(ns), root), CL.val(fc_val(cfg_name(lh(ns), root))), True)
    y = std(x)
    box = Or(isM(x), isQ(x))
    z = Ite(box, lambda: OC.val(y), x, Val)
    return And(Not(empty(ns)), cfg_ok(ns, root), Or(Not(box), OC.ok(y))), Ite(keep, z, lambda: dropped(z), Val)


def sc_cases(a):
    ok, x = loaded(a.self.names, a.root, a.keep_meta)
    return [exc(Not(ok), Exception, name='the configs can not be loaded')] + ov_cases(a.self.path, a.element, x, a.self.combine, ok)


set_config = Contract('marsh.parse:SetConfig.apply', {'self': Obj(mp.SetConfig, path='str', names='lv', combine='bool'), 'element': 'val', 'root': 'val', 'keep_meta': 'bool'}, runtime=False, name='SetConfig.apply', short='set_config',
                      requires=lambda a: [allstr(a.self.names), Or(isN(a.root), isS(a.root))], cases=sc_cases, prune=True)

# ------------------------------------------------------------- the entry point
from marsh.entry_point import EntryPoint  # noqa
PO = Abstract('PO', [Val], 'what parsing the text of an override gives (property C06)')
AP = Abstract('AP', [Val, Val, Val, Bool], 'what applying a parsed override to an element gives (override, element, root, are meta data kept)')
RV = Abstract('RV', [Val], 'what resolving an element gives')


def lc_setup(e, st):
    def parse(e, st, args, kw):
        for st1, r in PO.outcomes(e, st, [e.to_val(st, args[0])]):
            yield (st1, r) if isinstance(r, ExcV) else (st1, O(e.to_val(st1, r), 'command'))

    def apply(e, st, r, args, kw):
        kw = dict(kw)
        el = args[0] if args else kw.pop('element')
        keep = kw.pop('keep_meta', None)
        root = kw.pop('root', K(None))
        if kw or len(args) > 1:
            raise E.Unsupported('an override is applied otherwise')
        yield from AP.outcomes(e, st, [r.t, e.to_val(st, el), e.to_val(st, root), e.coerce(st, keep, 'bool')[1] if keep is not None else False])
    e.models[mp.override] = parse
    e.meth_models[('command', 'apply')] = apply
    e.models[marsh.element.resolve] = lambda e, st, args, kw: RV.outcomes(e, st, [e.to_val(st, (list(args) + list(kw.values()))[0])])
    e.val_attrs['apply'] = lambda e, st, v: iter([(st, E.BMeth(O(v.t, 'command'), 'apply'))])


one_lc = lambda h, x, r: And(PO.ok(h), AP.ok(PO.val(h), x, r, True))  # noqa
lc_ok = Rec('lc_ok', [LV, Val, Val], Bool, lambda x, r: True, lambda h, t, x, r: And(one_lc(h, x, r), lc_ok(t, AP.val(PO.val(h), x, r, True), r)))
lc_val = Rec('lc_val', [LV, Val, Val], Val, lambda x, r: x, lambda h, t, x, r: lc_val(t, AP.val(PO.val(h), x, r, True), r))
MISS = vstr(L.S(marsh.MISSING))
NSP = Obj(argparse.Namespace, path='val', overrides='tuplelv')


def lc_root(a):
    p = a.args.path
    return Ite(And(isS(p), Not(empty(ofS(p)))), p, VNone, Val)


def lc_cases(a):
    r, xs = lc_root(a), a.args.overrides
    ok, x = lc_ok(xs, MISS, r), lc_val(xs, MISS, r)
    return [exc(Not(ok), Exception, name='an override is rejected'), ret(And(ok, RV.ok(x)), lambda: dropped(RV.val(x)), name='all overrides applied in order'), exc(And(ok, Not(RV.ok(x))), Exception, name='can not be resolved')]


def _lc_inv(v):
    r, xs = lc_root(v.a), v.a.args.overrides
    c = v.val('config')
    return [Eq(lc_ok(v.rest, c, r), lc_ok(xs, MISS, r)), Eq(lc_val(v.rest, c, r), lc_val(xs, MISS, r))]


load_config = Contract('marsh.entry_point:EntryPoint.load_config', {'self': Obj(EntryPoint), 'args': NSP}, runtime=False, setup=lc_setup, name='EntryPoint.load_config', short='load_config',
                       requires=lambda a: [Or(isN(a.args.path), isS(a.args.path))], cases=lc_cases, loops=[Loop(_lc_inv, havoc={'config': 'val'}, name='overrides')], prune=True)

# ------------------------------------------------------------- a run of the entry point
import contextlib  # noqa
import datetime  # noqa
import logging  # noqa
import sys  # noqa
from pyvc.values import ObjCell, DictCell  # noqa
from marsh.schema.argument import ArgumentsUnmarshalSchema  # noqa
cli_ok = Unint('cli_ok', [Int], Bool, doc='does argparse accept the command line')
cli_help = Unint('cli_help', [Int], Val, doc='the path that help is asked for, or None')
cli_out = Unint('cli_out', [Int], Val, doc='--output: a pattern for the output directory, or None')
cli_cfgout = Unint('cli_cfgout', [Int], Val, doc='--config-out')
dir_of = Unint('dir_of', [Str], Str, doc='the output directory that the pattern names at this time')
dir_ok = Unint('dir_ok', [Str], Bool, doc='can the output directory be created')
cd_ok = Unint('cd_ok', [Str, Str], Bool, doc='can the working directory be changed (from, to)')
cd_to = Unint('cd_to', [Str, Str], Str, doc='the working directory after changing it (from, to)')
env_of = Unint('env_of', [Str], Val, doc='an environment variable, or None')
is_args = Unint('is_args', [Val], Bool, doc='is a schema one for the arguments of a function')
LCF = Abstract('LCF', [Int], 'what load_config gives for the command line')
WR = Abstract('WR', [Val, Val, Str], 'what writing the config does (config, path, working directory)')
UN1 = Abstract('UN1', [Val, Val], 'what unmarshaling the config as a value gives')
UNA = Abstract('UNA', [Val, Val, LV, LE], 'what unmarshaling the config as arguments gives (schema, config, default arguments)')
u_args = Unint('u_args', [Val], LV, doc='the positional ones of unmarshaled arguments')
u_kwargs = Unint('u_kwargs', [Val], LE, doc='the keyword ones of unmarshaled arguments')
FN = Abstract('FN', [Val, LV, LE], 'what the function of the entry point does')


class Ghost:
    """what is outside of the process: the working directory, and whether it was changed by the entry point itself"""


def ep_setup(e, st):
    CWD = z3.Const('cwd0', Str)
    g = e.alloc(st, ObjCell(Ghost, dict(cwd=S('str', CWD), own=K(False), calls=S('int', z3.IntVal(0)))))
    e.ghost = g

    def get(st, f):
        return st.heap[g.loc].fields[f]

    def put(st, **kw):
        c = st.heap[g.loc]
        for f, v in kw.items():
            c = c.with_field(f, v)
        st.heap[g.loc] = c

    def strarg(e, st, v):
        cs, t = e.coerce(st, v, 'str')
        for st1, b in e.fork(st, And(*cs)):
            yield (st1, t) if b else (st1, None)

    def foreign(st):            # code of the user may change the working directory
        put(st, cwd=S('str', fresh(Str, 'cwd')))

    def chdir(e, st, args, kw):
        for st1, p in strarg(e, st, args[0]):
            if p is None:
                yield e.throw(st1, TypeError)
                continue
            c = e.coerce(st1, get(st1, 'cwd'), 'str')[1]
            back = Eq(p, CWD)       # the directory that the process was in is still there
            for st2, b in e.fork(st1, Or(back, cd_ok(c, p))):
                if not b:
                    yield e.throw(st2, OSError)
                    continue
                st2 = st2.fork()
                put(st2, cwd=S('str', Ite(back, CWD, lambda: cd_to(c, p), Str)), own=K(True))
                yield st2, K(None)

    def makedirs(e, st, args, kw):
        for st1, p in strarg(e, st, args[0]):
            if p is None:
                yield e.throw(st1, TypeError)
                continue
            for st2, b in e.fork(st1, dir_ok(p)):
                yield (st2, K(None)) if b else e.throw(st2, OSError)
    e.models[os.getcwd] = lambda e, st, args, kw: iter([(st, get(st, 'cwd'))])
    e.models[os.chdir] = chdir
    e.models[os.makedirs] = makedirs
    e.models[sys.exit] = lambda e, st, args, kw: iter([e.throw(st, SystemExit)])
    e.models[logging.basicConfig] = lambda e, st, args, kw: iter([(st, K(None))])
    e.models[datetime.datetime.now] = lambda e, st, args, kw: iter([(st, O(fresh(Val, 'now'), 'now'))])
    e.meth_models[('now', 'strftime')] = lambda e, st, r, args, kw: iter([(st, S('str', dir_of(e.coerce(st, args[0], 'str')[1])))])
    e.models[mc.write] = write_model(get)
    e.models[('isinstance', ArgumentsUnmarshalSchema)] = lambda e, st, v: is_args(v.t)

    def environ(e, st, args, kw):
        if not (isinstance(args[0], K) and args[0].obj is os.environ and len(args) == 3):
            raise E.Unsupported('Mapping.get')
        v = env_of(e.coerce(st, args[1], 'str')[1])
        yield st.fork().assume(Or(isN(v), isS(v))), e.norm(S('val', v))
    e.models[type(os.environ).get] = environ

    def parser(e, st, r, args, kw):
        for st1, b in e.fork(st, cli_ok(0)):
            if not b:
                yield e.throw(st1, SystemExit)
                continue
            o, h, c = cli_out(0), cli_help(0), cli_cfgout(0)
            st1 = st1.fork().assume(And(Or(isN(o), isS(o)), Or(isN(c), isS(c)), Or(isN(h), isS(h)), Or(isN(cli_path(0)), isS(cli_path(0)))))
            yield st1, e.alloc(st1, ObjCell(argparse.Namespace, dict(help=S('val', h), output=S('val', o), config_out=S('val', c), path=S('val', cli_path(0)), overrides=S('val', vseq(TUPLE, cli_overrides(0))), logging_level=S('val', fresh(Val)), logging_format=S('val', fresh(Val)))))
    e.meth_models[('parser', 'parse_args')] = parser

    def unmarshal(e, st, r, args, kw):
        kw = dict(kw)
        x = e.to_val(st, args[0] if args else kw.pop('element'))
        if not kw:
            for st1, o in UN1.outcomes(e, st, [r.t, x]):
                st1 = st1.fork()
                foreign(st1)
                yield st1, o
            return
        da, dk = e.coerce(st, kw.pop('default_args'), 'lv'), e.coerce(st, kw.pop('default_kwargs'), 'le')
        if kw or e.feasible(st, [z3.Not(z3.And(True, *[c for c in da[0] + dk[0] if isz(c)]))]):
            raise E.Unsupported('unmarshaling of the arguments')
        for st1, o in UNA.outcomes(e, st, [r.t, x, da[1], dk[1]]):
            st1 = st1.fork()
            foreign(st1)
            yield st1, (o if isinstance(o, ExcV) else O(e.to_val(st1, o), 'arguments'))
    e.meth_models[('epschema', 'unmarshal')] = unmarshal
    e.attr_models[('arguments', 'args')] = lambda e, st, v: iter([(st, S('val', vseq(TUPLE, u_args(v.t))))])
    e.attr_models[('arguments', 'kwargs')] = lambda e, st, v: iter([(st.assume(allstr(ekeys(u_kwargs(v.t)))), S('val', vmap(DICT, u_kwargs(v.t))))])

    def anycall(e, st, f, args, kw):
        kw = dict(kw)
        lv, le = (), ()
        star = [a for a in args if isinstance(a, E.StarArg)]
        if star and len(args) == 1:
            lv = e.coerce(st, star[0].v, 'lv')[1]
        elif not star:
            for a in reversed(args):
                lv = lcons(e.to_val(st, a), lv)
        else:
            raise E.Unsupported('a call with mixed arguments')
        d = kw.pop('**', None)
        if d is not None:
            le = e.coerce(st, d, 'le')[1]
        if kw:
            raise E.Unsupported('a call with keyword arguments')
        n = get(st, 'calls').t
        for st1, o in FN.outcomes(e, st, [f.t, lv, le]):
            st1 = st1.fork()
            foreign(st1)
            put(st1, calls=S('int', n + 1))
            yield st1, o
    e.call_models['anycall'] = anycall


def write_model(get):
    def write(e, st, args, kw):
        kw = dict(kw)
        x = args[0] if args else kw.pop('config')
        p = args[1] if len(args) > 1 else kw.pop('path')
        yield from WR.outcomes(e, st, [e.to_val(st, x), e.to_val(st, p), e.coerce(st, get(st, 'cwd'), 'str')[1]])
    return write


Contract('marsh.entry_point:EntryPoint.get_arg_parser', {'self': 'any'}, ret='any', runtime=False, short='get_arg_parser', assumed='argparse', prove=False, cases=lambda a: [ret(True, make=lambda e, st, av: O(fresh(Val, 'parser'), 'parser'))])
EP = Obj(EntryPoint, fn='val', schema=Opq('epschema'), setup_logging='bool')
cli_path = Unint('cli_path', [Int], Val, doc='--config-dir, or None')
cli_overrides = Unint('cli_overrides', [Int], LV, doc='the texts of the overrides on the command line')
Contract('marsh.entry_point:EntryPoint.maybe_print_help', {'self': 'any'}, ret='none', runtime=False, short='maybe_print_help', prove=False, assumed='prints help and exits if it is asked for, does nothing otherwise',
         cases=lambda a: [ret(isN(cli_help(0)), ()), exc(Not(isN(cli_help(0))), SystemExit)])
Contract('marsh.errors:MarshError.pretty', {'self': 'any'}, ret='str', runtime=False, short='pretty', prove=False, assumed='used in messages only: gives some text', cases=lambda a: [ret(True)])


def given(x):
    return And(isS(x), Not(empty(ofS(x))))


def ep_parts(a):
    s, A, W = a.self, a.args, a.kwargs
    r = Ite(given(cli_path(0)), cli_path(0), VNone, Val)
    xs = cli_overrides(0)
    cfg = dropped(RV.val(lc_val(xs, MISS, r)))
    d, c0 = dir_of(ofS(cli_out(0))), z3.Const('cwd0', Str)
    inside = Ite(And(given(cli_out(0)), Ne(d, c0)), lambda: cd_to(c0, d), c0, Str)
    ready = And(cli_ok(0), isN(cli_help(0)), lc_ok(xs, MISS, r), RV.ok(lc_val(xs, MISS, r)), Implies(given(cli_out(0)), And(dir_ok(d), Or(Eq(d, c0), cd_ok(c0, d)))),
                Implies(given(cli_cfgout(0)), WR.ok(cfg, cli_cfgout(0), inside)))
    return cfg, ready


def ep_cases(a):
    s, A, W = a.self, a.args, a.kwargs
    cfg, ready = ep_parts(a)
    direct = And(Or(Not(empty(A)), Not(empty(W))), Not(is_args(s.schema)))
    first = And(Not(direct), ready, is_args(s.schema))
    second = And(Not(direct), ready, Not(is_args(s.schema)))
    u = UNA.val(s.schema, cfg, A, W)
    ok1, ok2 = UNA.ok(s.schema, cfg, A, W), UN1.ok(s.schema, cfg)
    one = lcons(UN1.val(s.schema, cfg), ())
    return FN.cases([s.fn, A, W], direct) + FN.cases([s.fn, u_args(u), u_kwargs(u)], And(first, ok1)) + FN.cases([s.fn, one, ()], And(second, ok2)) + \
        [exc(And(Not(direct), Not(And(ready, Ite(is_args(s.schema), ok1, ok2, Bool)))), BaseException, name='something in front of the call fails')]


def ep_final(e, st, out, a):
    f = st.heap[e.ghost.loc].fields
    own = e.norm(f['own']).obj
    here = e.coerce(st, f['cwd'], 'str')[1]
    cfg, ready = ep_parts(a)
    direct = And(Or(Not(empty(a.args)), Not(empty(a.kwargs))), Not(is_args(a.self.schema)))
    ok = And(ready, Ite(is_args(a.self.schema), UNA.ok(a.self.schema, cfg, a.args, a.kwargs), UN1.ok(a.self.schema, cfg), Bool))
    return [Implies(own, Eq(here, z3.Const('cwd0', Str))), Implies(own, given(cli_out(0))), Eq(f['calls'].t, Ite(Or(direct, ok), 1, 0, Int))]


entry = Contract('marsh.entry_point:EntryPoint.__call__', {'self': EP, 'args': 'tuplelv', 'kwargs': 'le'}, runtime=False, setup=ep_setup, name='EntryPoint.call', short='entry',
                 requires=lambda a: [allstr(ekeys(a.kwargs)), ewf(a.kwargs)], cases=ep_cases, final=ep_final, prune=True)


# ------------------------------------------------- the config schema of a path
from . import registry as _reg


def cs_setup(e, st):
    fs_setup(e, st)
    _reg.select_setup(mc.ConfigSchema)(e, st)


def cs_cases(a):
    x = vstr(a.value)
    named = And(Not(empty(f_stem(a.value))), Not(empty(f_ext(a.value))))
    return [exc(Not(named), ValueError, name='no name or no extension')] + _reg.BLD.cases([_reg.RM_list(x), lcons(x, a.args), a.kwargs], And(named, _reg.RM.ok(x))) + _reg.RM.cases([x], named)[1:]


select_config = Contract(
    'marsh.config:ConfigSchemaMeta.__call__', {'cls': Const(mc.ConfigSchema), 'value': 'str', 'args': 'tuplelv', 'kwargs': 'le'}, runtime=False, name='ConfigSchema(...)', short='select_config', setup=cs_setup,
    requires=lambda a: [ewf(a.kwargs), allstr(ekeys(a.kwargs)), Not(ehas(a.kwargs, _reg.WRAPPED))], cases=cs_cases)


# ------------------------------------------------- reading and writing files
import json
import yaml
JD = Abstract('JD', [Val], 'the JSON text of an element')
JL = Abstract('JL', [Val], 'the element of a JSON text')
YD = Abstract('YD', [Val], 'the YAML text of an element (safe_dump)')
YL = Abstract('YL', [Val], 'the element of a YAML text (SafeLoader)')
FR = Abstract('FR', [Val], 'opening a file and reading it')
FW = Abstract('FW', [Val], 'opening a file for writing')


def io_setup(e, st):
    def enter(e, st, args, kw):
        args = list(args) + ([kw['mode']] if 'mode' in kw else [])
        if len(args) not in (1, 2) or set(kw) - {'mode', 'encoding'}:
            raise E.Unsupported('open')
        mode = e.norm(args[1]) if len(args) == 2 else K('r')
        if not (isinstance(mode, K) and mode.obj in ('r', 'w')):
            raise E.Unsupported('open in another mode')
        p = e.to_val(st, args[0])
        for st1, o in (FR if mode.obj == 'r' else FW).outcomes(e, st, [p]):
            if isinstance(o, ExcV):
                yield st1, o
                continue
            st1 = st1.fork()
            st1.trace = st1.trace + (('open', mode.obj, p),)
            yield st1, O(p, 'file ' + mode.obj)

    def leave(e, st, v, o):
        st = st.fork()
        st.trace = st.trace + (('close',),)
        yield st, o
    e.models[('with', open)] = (enter, leave)

    def dumper(f, text):
        def model(e, st, args, kw):
            if kw or len(args) != (1 if text else 2):
                raise E.Unsupported('options of a dump')
            if not text and not (isinstance(args[1], O) and args[1].cls == 'file w' and st.trace and st.trace[-1][0] == 'open'):
                raise E.Unsupported('dump to something else')
            for st1, o in f.outcomes(e, st, [e.to_val(st, args[0])]):
                if isinstance(o, ExcV) or text:
                    yield st1, o
                    continue
                st1 = st1.fork()
                st1.trace = st1.trace + (('write', args[1].t, e.to_val(st1, o)),)
                yield st1, K(None)
        return model

    def loader(f, text, opts):
        def model(e, st, args, kw):
            if len(args) != 1 or set(kw) != set(opts) or any(not (isinstance(e.norm(kw[n]), K) and e.norm(kw[n]).obj is opts[n]) for n in opts):
                raise E.Unsupported('options of a load')
            x = args[0]
            if isinstance(x, O) and x.cls == 'file r' and st.trace and st.trace[-1][0] == 'open':
                x = FR.val(x.t)
            else:
                x = e.to_val(st, x)
            return f.outcomes(e, st, [x])
        return model
    safe = {'Loader': yaml.SafeLoader}
    for fn, m in ((json.dump, dumper(JD, False)), (json.dumps, dumper(JD, True)), (yaml.safe_dump, None), (json.load, loader(JL, False, {})), (json.loads, loader(JL, True, {})), (yaml.load, loader(YL, True, safe)), (yaml.safe_load, loader(YL, True, {}))):
        if m is not None:
            e.models[fn] = m
    e.models[yaml.safe_dump] = lambda e, st, args, kw: dumper(YD, len(args) == 1)(e, st, args, kw)


def wrote(f):
    def final(e, st, out, a):
        p, x = vstr(a.self.value), a.element
        ok = And(FW.ok(p), f.ok(x))
        if isinstance(out, ExcV):
            return [Not(ok), all(t[0] != 'write' for t in st.trace)]
        w = [t for t in st.trace if t[0] != 'close']
        if [t[0] for t in w] != ['open', 'write'] or st.trace[-1][0] != 'close':
            return [False]
        return [ok, Eq(w[0][2], p), Eq(w[1][1], p), Eq(w[1][2], f.val(x))]
    return final


io = []
for _n, _cls, _d, _l in (('json', mc.JSONConfigIO, JD, JL), ('yaml', mc.YAMLConfigIO, YD, YL)):
    _p, _self = f'marsh.config:{_cls.__name__}.', Obj(_cls, value='str')
    _kw = dict(runtime=False, setup=io_setup)
    io += [Contract(_p + 'dump', {'self': _self, 'element': 'val'}, ret='none', name=f'{_cls.__name__}.dump', short=f'{_n}_dump', cases=lambda a: [may(True, ret(True, ()), exc(True, Exception))], final=wrote(_d), **_kw),
           Contract(_p + 'load', {'self': _self}, name=f'{_cls.__name__}.load', short=f'{_n}_load', cases=(lambda f: lambda a: f.cases([FR.val(vstr(a.self.value))], FR.ok(vstr(a.self.value))) + FR.cases([vstr(a.self.value)])[1:])(_l), **_kw),
           Contract(_p + 'dumps', {'self': _self, 'element': 'val'}, name=f'{_cls.__name__}.dumps', short=f'{_n}_dumps', cases=(lambda f: lambda a: f.cases([a.element]))(_d), **_kw),
           Contract(_p + 'loads', {'self': _self, 'encoded': 'val'}, name=f'{_cls.__name__}.loads', short=f'{_n}_loads', cases=(lambda f: lambda a: f.cases([a.encoded]))(_l), **_kw)]
