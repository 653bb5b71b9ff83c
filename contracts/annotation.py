"""Contracts of the annotations that marsh has."""
import pyvc  # noqa
import marsh
from marsh import annotation as an
from pyvc.logic import *  # noqa
from pyvc.logic import And, Or, Not, Eq, Ne, Ite, Implies
from pyvc.lib import *  # noqa
from pyvc.contract import Contract, ret, exc, Obj

num = lambda v: Or(isB(v), isI(v), isF(v))
ZERO = vint(0)


def sign(cls, short, ok):
    return Contract(f'marsh.annotation:{cls.__name__}.__call__', {'self': Obj(cls), 'value': 'val'}, name=f'{cls.__name__}.__call__', short=short,
                    requires=lambda a: [num(a.value)], cases=lambda a: [ret(ok(a.value), a.value), exc(Not(ok(a.value)), ValueError)])


# nan is neither negative nor positive nor zero
positive = sign(an.Positive, 'positive', lambda v: num_lt(ZERO, v))
negative = sign(an.Negative, 'negative', lambda v: num_lt(v, ZERO))
unsigned = sign(an.Unsigned, 'unsigned', lambda v: num_cmp('GtE', v, ZERO))


def size(v):
    return Ite(isS(v), lambda: slen(ofS(v)), lambda: Ite(isM(v), lambda: elen(ofM(v)), lambda: llen(ofQ(v)), Int), Int)


populated = Contract('marsh.annotation:Populated.__call__', {'self': Obj(an.Populated), 'value': 'val'}, name='Populated.__call__', short='populated',
                     requires=lambda a: [Or(isS(a.value), isM(a.value), isQ(a.value))],
                     cases=lambda a: [ret(Ne(size(a.value), 0), a.value), exc(Eq(size(a.value), 0), ValueError)])
pre_annotation = Contract('marsh.annotation:PreAnnotation.__call__', {'self': Obj(an.PreAnnotation), 'element': 'val'}, name='PreAnnotation.__call__', short='pre_annotation', cases=lambda a: [ret(True, a.element)])
base_annotation = Contract('marsh.annotation:Annotation.__call__', {'self': Obj(an.Annotation), 'value': 'val'}, name='Annotation.__call__', short='base_annotation', cases=lambda a: [ret(True, a.value)])
