"""Sequences and mappings are unmarshaled item by item."""
import abc
import collections
import collections.abc
import types
from typing import *  # noqa
import marsh
from pyvc import gens
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS
from . import typed
from .typed import gtype, gfor, outcome, wanted, eq, build

P = Prop('C10', modules=['schemas', 'construct', 'setups'], extra_modules=['kinds', 'path', 'element', 'cast'],
         contracts=['sequence_unmarshal', 'mapping_unmarshal', 'inspect_sequence_type', 'inspect_mapping_type', 'tpl_seq', 'tpl_map', 'types_seq', 'types_map', 'gen_seq', 'gen_map', 'seq_init', 'set_init', 'gen_seq_init', 'map_init', 'gen_map_init', 'dd_init', 'dd_construct', 'init_call'],
         rule='sequence and mapping types over random item types, with random elements; templates with nested schemas that record what they are given',
         limits=['casted keys are assumed to be hashable', 'the items of generic classes are those of the type arguments of the class or of its first sequence or mapping base, as written: type parameters that a class passes on to its bases in another order or position are out of scope, and so are the bases of subclasses of set'])
P.replay_ns = NS
KINDS = ['list', 'seq', 'mseq', 'tuplevar', 'set', 'dict', 'mapping', 'defaultdict']


def _gen(rng):
    while True:
        k = rng.choice(KINDS)
        spec = (k, rng.choice(typed.HASHABLE[:5])) if k == 'set' else (k, gtype(rng, 1)) if k in KINDS[:4] else (k, rng.choice(typed.KEYS), gtype(rng, 1))
        x = gfor(rng, spec)
        if len(spec) == 3 and rng.random() < .2:       # keys that become equal
            x = {y: gfor(rng, spec[2]) for y in rng.sample(['0', '00', 0, '1', '+1', True, 'true', 'on', '1.0', 'false', '-0', '0.0', '01', 'RED', 1.5, '1.50'], rng.randint(2, 6))}
            spec = (spec[0], rng.choice([('int',), ('bool',), ('float',), ('enum',)]), spec[2])
        return spec, exotic(rng, x) if rng.random() < .4 else x


@P.oracle(gen=_gen, n=6000)
def containers(spec, x):
    """result has the requested container type and, in order, the unmarshaled items"""
    try:
        w = wanted(spec, x)
    except TypeError:
        raise Skip
    g = outcome(spec, x)
    if g[0] != w[0] or g[1] != w[1] and (g[0] == 'bad' or not eq(g[1], w[1])):
        return f'{g[:3]!r}, wanted {w!r}'


class Stub(marsh.schema.UnmarshalSchema):
    """nested schema that records what it is asked, and fails on request"""

    def __init__(self, log, name, bad):
        super().__init__(object)
        self.log, self.name, self.bad = log, name, bad

    def unmarshal(self, element):
        self.log.append((self.name, element))
        if element == self.bad:
            raise marsh.errors.UnmarshalError('no', path='deep.er')
        return (self.name, element)


class Got:
    def __init__(self, value):
        self.value = value


def _gstub(rng):
    if rng.random() < .5:
        x = [gens.scalar(rng) for _ in range(rng.randint(0, 5))]
    else:
        x = {rng.choice([gens.key(rng), rng.randint(0, 5)]): gens.scalar(rng) for _ in range(rng.randint(0, 5))}
    r = rng.random()
    vals = list(x) + list(x.values()) if isinstance(x, dict) else list(x)
    bad = rng.choice(vals) if r < .4 and vals else 'NOBAD'
    return exotic(rng, x), bad


@P.oracle(gen=_gstub, n=4000)
def templates(x, bad):
    """every key and value is passed to its schema exactly once, in order, up to the first failure; the results reach the constructor in order"""
    log = []
    if is_map(x):
        s = marsh.schema.template.MappingUnmarshalSchema(Got)
        s.key_schema, s.value_schema = Stub(log, 'k', bad), Stub(log, 'v', bad)
        want = [(n, y) for k in x for n, y in (('k', k), ('v', x[k]))]
        fields = [k for k in x for n in 'kv']
    else:
        s = marsh.schema.template.SequenceUnmarshalSchema(Got)
        s.value_schema = Stub(log, 'v', bad)
        want = [('v', y) for y in x]
        fields = list(range(len(x)))
    at = next((i for i, (n, y) in enumerate(want) if y == bad), None)
    try:
        r = s.unmarshal(x)
    except marsh.errors.UnmarshalError as e:
        if at is None:
            return f'{e!r}'
        if log != want[:at + 1]:
            return f'asked {log!r}'
        f = str(fields[at])
        if err_path(e) != ((f,) if f else ()) + ('deep', 'er'):
            return f'path {e.path!r}'
        return
    if at is not None:
        return 'accepted'
    if log != want:
        return f'asked {log!r}'
    if type(r) is not Got:
        return f'{r!r}'
    if is_map(x):
        if list(r.value.items()) != [(('k', k), ('v', x[k])) for k in x]:
            return f'{r.value!r}'
    elif list(r.value) != want:
        return f'{r.value!r}'


T, K, V = TypeVar('T'), TypeVar('K'), TypeVar('V')


class IntList(List[int]):
    pass


class GList(List[T]):
    pass


class BoolList(GList[bool]):
    pass


class IntFloat(Dict[int, float]):
    pass


class GDict(Dict[K, V]):
    pass


class GUserList(collections.UserList, Generic[T]):
    pass


class GUserDict(collections.UserDict, Generic[K, V]):
    pass


class SeqBase(Generic[T]):
    def __init__(self, x):
        self.data = list(x)

    def __getitem__(self, i):
        return self.data[i]

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, x):
        return x in self.data

    def __reversed__(self):
        return reversed(self.data)

    def index(self, *a):
        return self.data.index(*a)

    def count(self, x):
        return self.data.count(x)


class MapBase(Generic[K, V]):
    def __init__(self, x):
        self.data = dict(x)

    def __getitem__(self, i):
        return self.data[i]

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, x):
        return x in self.data

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def items(self):
        return self.data.items()

    def get(self, k, d=None):
        return self.data.get(k, d)


class AbsSeq(SeqBase[T], abc.ABC):
    @abc.abstractmethod
    def more(self):
        ...


class AbsMap(MapBase[K, V], abc.ABC):
    @abc.abstractmethod
    def more(self):
        ...


class OwnSeq(Sequence[T]):
    __init__, __getitem__, __len__ = SeqBase.__init__, SeqBase.__getitem__, SeqBase.__len__


class OwnInts(OwnSeq[int]):
    pass


class OwnMap(Mapping[K, V]):
    __init__, __getitem__, __len__, __iter__ = MapBase.__init__, MapBase.__getitem__, MapBase.__len__, MapBase.__iter__


I, F, B, ANY = ('int',), ('float',), ('bool',), ('any',)
# type (a function of the types of keys and items), type of the result, fixed types of keys and items
SEQS = [(lambda t: Deque[t], collections.deque, None), (lambda t: collections.deque, collections.deque, ANY), (lambda t: IntList, IntList, I), (lambda t: GList[t], GList, None), (lambda t: BoolList, BoolList, B),
        (lambda t: GUserList[t], GUserList, None), (lambda t: GUserList, GUserList, ANY), (lambda t: collections.UserList, collections.UserList, ANY), (lambda t: OwnSeq[t], OwnSeq, None), (lambda t: OwnInts, OwnInts, I),
        (lambda t: SeqBase[t], SeqBase, None), (lambda t: AbsSeq[t], list, None), (lambda t: list, list, ANY), (lambda t: collections.abc.Sequence, tuple, ANY), (lambda t: collections.abc.MutableSequence, list, ANY), (lambda t: list[t], list, None),
        (lambda t: collections.deque[t], collections.deque, None), (lambda t: tuple[t, ...], tuple, None), (lambda t: collections.abc.Sequence[t], tuple, None), (lambda t: Annotated[List[t], 1], list, None), (lambda t: tuple, tuple, ANY)]
MAPS = [(lambda k, v: OrderedDict[k, v], collections.OrderedDict, None), (lambda k, v: collections.OrderedDict, collections.OrderedDict, (ANY, ANY)), (lambda k, v: ChainMap[k, v], collections.ChainMap, None), (lambda k, v: collections.Counter, collections.Counter, (ANY, ANY)), (lambda k, v: IntFloat, IntFloat, (I, F)),
        (lambda k, v: GDict[k, v], GDict, None), (lambda k, v: GUserDict[k, v], GUserDict, None), (lambda k, v: GUserDict, GUserDict, (ANY, ANY)), (lambda k, v: OwnMap[k, v], OwnMap, None), (lambda k, v: MapBase[k, v], MapBase, None), (lambda k, v: AbsMap[k, v], dict, None),
        (lambda k, v: dict, dict, (ANY, ANY)), (lambda k, v: dict[k, v], dict, None), (lambda k, v: MutableMapping[k, v], dict, None), (lambda k, v: collections.abc.Mapping[k, v], types.MappingProxyType, None), (lambda k, v: collections.abc.Mapping, types.MappingProxyType, (ANY, ANY)), (lambda k, v: Annotated[Dict[k, v], 1], dict, None), (lambda k, v: collections.defaultdict, collections.defaultdict, (ANY, ANY)),
        (lambda k, v: collections.defaultdict[k, v], collections.defaultdict, None)]


def _gothers(rng):
    n = rng.randrange(len(SEQS) + len(MAPS))
    if n < len(SEQS):
        spec = 'list', SEQS[n][2] or gtype(rng, 1)
    else:
        fixed = MAPS[n - len(SEQS)][2]
        spec = 'dict', fixed[0] if fixed else rng.choice(typed.KEYS), fixed[1] if fixed else gtype(rng, 1)
    return n, spec, gfor(rng, spec)


def plainview(spec, v):
    """the items of any container, in the container that is wanted"""
    if spec[0] == 'list':
        return typed.view(spec, list(getattr(v, 'data', v)))
    v = getattr(v, 'data', v)
    return typed.view(spec, {k: v[k] for k in v})


@P.oracle(gen=_gothers, n=4000)
def other_containers(n, spec, x):
    """containers of every other kind (generic, user-defined, abstract, written against the protocol) hold the unmarshaled items too"""
    try:
        w = wanted(spec, x)
    except TypeError:
        raise Skip
    types_ = [build(t) for t in spec[1:]]
    t = (SEQS + MAPS)[n][0](*types_)
    made = (SEQS + MAPS)[n][1]
    try:
        g = marsh.unmarshal(t, x)
    except marsh.errors.UnmarshalError as e:
        if w[0] == 'bad' and (is_missing_ok(e, w)):
            return
        return f'{t}: {e!r}, wanted {w!r}'
    if w[0] == 'bad':
        return f'{t}: {g!r}, wanted {w!r}'
    if type(g) is not made:
        return f'{t}: made a {type(g)}'
    if made is collections.ChainMap and len(g.maps) != 1:
        return f'{g!r}'
    if not eq(plainview(spec, g), w[1]):
        return f'{t}: {g!r}, wanted {w!r}'


def is_missing_ok(e, w):
    return err_path(e) == w[1] if isinstance(w[1], tuple) else True


def _gdefault(rng):
    return typed.KEYS[0] if rng.random() < .8 else ('int',), gtype(rng, 2), rng.randint(1, 3)


@P.oracle(gen=_gdefault, n=2500)
def absent_entries(kspec, vspec, times):
    """the entry of an absent key of a defaultdict is what the type of values makes of the missing value, or else of 0, '' or None, anew for every key"""
    d = marsh.unmarshal(build(('defaultdict', kspec, vspec)), {})
    if vspec == ('any',):
        w = ('ok', None)
    else:
        w = next((r for r in (wanted_ok(vspec, x) for x in (marsh.MISSING, 0, '', None)) if r[0] == 'ok'), ('bad',))
    made = []
    for i in range(times):
        try:
            v = d[f'key{i}']
        except marsh.errors.MarshError as e:
            if w[0] == 'ok':
                return f'{e!r}, wanted {w!r}'
            if d:
                return f'{d!r}'
            continue
        if w[0] != 'ok':
            return f'{v!r}, wanted an error'
        if not eq(typed.view(vspec, v), w[1]):
            return f'{v!r}, wanted {w!r}'
        if isinstance(v, (list, dict, set)) and any(v is m for m in made):
            return 'the same object twice'
        made.append(v)
    if list(d) != [f'key{i}' for i in range(len(made))]:
        return f'{d!r}'


def wanted_ok(spec, x):
    try:
        return wanted(spec, x)
    except TypeError:
        return ('bad',)
