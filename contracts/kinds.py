"""Contracts of the predicates of marsh.utils that classify data values."""
import dataclasses
import omegaconf
import pyvc  # noqa
import marsh
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq
from pyvc.lib import *  # noqa
from pyvc.values import S, K, R, T, ListCell, DictCell
from pyvc import engine as E
from pyvc.contract import Contract, ret, exc

MISSING_STR = ('S', tuple(map(ord, '???')))
MISSING_DC = ('C', const_of(dataclasses.MISSING))


def missing(v):
    """marsh.MISSING ('???') or dataclasses.MISSING"""
    return Or(Eq(v, MISSING_STR), Eq(v, MISSING_DC))


def _proto(kinds):
    def f(e, st, v):
        return Or(*[k(v.t) for k in kinds])
    return f


def _install(e):
    u = marsh.utils
    e.models[('isinstance', u.MappingProtocol)] = _proto([isM])
    e.models[('isinstance', u.SequenceProtocol)] = _proto([isM, isQ, isS, isY])


E.EXTRA_MODELS.append(_install)

TRUST = 'get_origin / type(...) introspection: true of every data value (not a class, not a typing construct)'
is_obj_instance = Contract('marsh.utils:is_obj_instance', {'value': 'val'}, ret='bool', cases=lambda a: [ret(True, True)], assumed=TRUST)
is_mapping = Contract('marsh.utils:is_mapping', {'value': 'val'}, ret='bool', cases=lambda a: [ret(True, isM(a.value))])
is_sequence = Contract('marsh.utils:is_sequence', {'value': 'val'}, ret='bool', cases=lambda a: [ret(True, isQ(a.value))])
is_missing = Contract('marsh.utils:is_missing', {'value': 'val'}, ret='bool', cases=lambda a: [ret(True, missing(a.value))])
is_primitive = Contract('marsh.utils:is_primitive', {'value': 'val'}, ret='bool',
                        cases=lambda a: [ret(True, Or(isB(a.value), isI(a.value), isF(a.value), isS(a.value)))])
