"""The schema that handles a type or value is the first in the order of priority that matches it."""
import dataclasses
from typing import *  # noqa

import marsh
from marsh.schema.core import base as cb
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C17', modules=['registry'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling', 'containers', 'types'],
         contracts=['registry_match', 'wrapper_unmarshal', 'find_index', 'add', 'selection_build', 'wrapper_schema', 'wrapper_init', 'depends_on_order', 'build_type', 'call_type', 'register', 'base_register', 'select_marshal', 'select_schema'],
         lemmas=['lany_app', 'C17_chain', 'C17_skip', 'C17_first'],
         rule='random registries of schemas and wrappers whose match functions accept, refuse or fail, and random histories of uses and registrations of schemas for a type and what contains it',
         limits=['the built in schemas decide by their own match functions, which the properties of the single types cover', 'schema objects that a user has built keep the schema that they were built with'])
P.replay_ns = NS


class Fail(Exception):
    pass


def _registry(rng):
    n = rng.randint(0, 6)
    sch = [(rng.random() < .35, rng.choice([0, 0, 0, 1, 2, -1]), [rng.choice(['yes', 'yes', 'no', 'no', 'truthy', 'falsy', 'type', 'fail' if rng.random() < .2 else 'no']) for _ in range(3)]) for _ in range(n)]
    return sch, rng.choice(['direct', 'decorator', 'function']), [rng.randint(0, 2) for _ in range(rng.randint(1, 4))]


def make_classes(sch):
    class Meta(cb.SchemaMeta):
        pass

    class Top(cb.Schema, metaclass=Meta):
        registry = cb.SchemaRegistry(error=marsh.errors.MarshalError)

        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.args, self.kwargs = args, kwargs

    class Wrap(cb.WrapperSchema, Top):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.args, self.kwargs = args, {k: v for k, v in kwargs.items() if k != 'wrapped'}
    out = []
    for i, (wrap, prio, table) in enumerate(sch):
        def match(cls, value, table=table):
            what = table[value]
            if what == 'type':
                raise TypeError('no')
            if what == 'fail':
                raise Fail
            return {'yes': True, 'no': False, 'truthy': [1], 'falsy': ''}[what]
        out.append(type(f'S{i}', (Wrap if wrap else Top,), {'match': classmethod(match)}))
    return Top, out


@P.oracle(gen=_registry, n=2500)
def selection(sch, how, values):
    """match gives the first schema that accepts, below the wrappers before it that accept; build nests them"""
    top, classes = make_classes(sch)
    reg, order = top.registry, []
    for c, (wrap, prio, table) in zip(classes, sch):
        if how == 'direct':
            got = reg.register(c, priority=prio)
        elif how == 'decorator':
            got = reg.register(priority=prio)(c)
        else:
            got = marsh.schema.register(c, priority=prio) if prio else marsh.schema.register(c)
        if got is not c:
            return f'register gave {got}'
        at = max((i + 1 for i, (_, p) in enumerate(order) if p > prio), default=0)
        order.insert(at, (c, prio))
    if [c for c in reg] != [c for c, _ in order]:
        return f'order {list(reg)}, wanted {[c for c, _ in order]}'
    for v in values:
        want = []
        for c, _ in order:
            wrap, _, table = sch[classes.index(c)]
            if table[v] == 'fail':
                want = Fail
                break
            if table[v] in ('yes', 'truthy'):
                want.append(c)
                if not wrap:
                    break
        else:
            want = marsh.errors.MarshalError
        try:
            sel = reg.match(v)
        except (Fail, marsh.errors.MarshError) as err:
            sel = type(err)
        if sel != want:
            return f'match({v}) with {[(c.__name__, *sch[classes.index(c)]) for c, _ in order]} gave {sel}, wanted {want}'
        if not isinstance(want, list):
            continue
        s = sel.build(v, 'x', k=1)
        for i, c in enumerate(want):
            if type(s) is not c or s.args != (v, 'x') or s.kwargs != {'k': 1} or s.value != v:
                return f'{want} was built as {s} with {s.args} and {s.kwargs} at {i}'
            if i < len(want) - 1:
                if tuple(s.wrapped) != tuple(want[i + 1:]) or s.schema is not s.schema or type(s.inner_schema) is not want[-1]:
                    return f'{c} wraps {s.wrapped}, its schema is {s.schema}'
                s = s.schema
    return None


TYPES = ['A', 'List', 'Dict', 'Optional', 'Data', 'Tuple', 'Data2', 'Union', 'Ref', 'Comp']


def _later(rng):
    ops = []
    for _ in range(rng.randint(2, 9)):
        ops.append(rng.choice([('use', rng.choice(TYPES)), ('use', rng.choice(TYPES)), ('reg', rng.randint(0, 3), rng.randint(0, 2)), ('wrap', rng.randint(0, 3), rng.randint(0, 2)), ('space',)]))
    return (ops + [('use', t) for t in rng.sample(TYPES, 2)],)


@P.oracle(gen=_later, n=1500)
def registered_later(ops):
    """what a type is unmarshaled by does not depend on whether it was used before its schemas were registered"""
    class A:
        def __init__(self, x: int = 0):
            self.x = x

    @dataclasses.dataclass
    class Data:
        a: A
        b: int = 5

    @dataclasses.dataclass
    class Data2:
        d: Data

    @dataclasses.dataclass
    class Base:
        pass

    @dataclasses.dataclass
    class Comp(Base):
        a: A
    e = {'x': 3}
    types = {'A': (A, e, lambda v: v), 'List': (List[A], [e], lambda v: v[0]), 'Dict': (Dict[str, A], {'k': e}, lambda v: v['k']), 'Optional': (Optional[A], e, lambda v: v),
             'Data': (Data, {'a': e}, lambda v: v.a), 'Tuple': (Tuple[int, A], [1, e], lambda v: v[1]), 'Data2': (Data2, {'d': {'a': e}}, lambda v: v.d.a), 'Union': (Union[int, A], e, lambda v: v),
             'Ref': (List['Data'], None, None), 'Comp': (Base, {'name': 'comp', 'a': e}, lambda v: v.a)}
    custom, made, wraps = [], [], []
    reg = marsh.schema.UnmarshalSchema.registry
    space = None
    early = {p: reg.register(priority=p) for p in range(4)}      # decorators that are made before anything is used
    decos = [lambda p: lambda cls: marsh.schema.register(cls, priority=p), lambda p: marsh.schema.register(priority=p), early.get]
    try:
        for op in ops:
            if op[0] == 'space':
                if space is None:
                    space = marsh.namespaces.new('verif_c17', Base)
                    space.register(Comp, name='comp')
            elif op[0] in ('reg', 'wrap'):
                tag = (op[0], len(made))
                ns = {'match': classmethod(lambda cls, v: v is A)}
                if op[0] == 'reg':
                    ns['unmarshal'] = lambda self, element, tag=tag: (tag, element)
                    cls = type('Custom', (marsh.schema.UnmarshalSchema,), ns)
                else:
                    ns['unmarshal'] = lambda self, element, tag=tag: (tag, self.schema.unmarshal(element))
                    cls = type('CustomWrap', (marsh.schema.core.unmarshal.WrapperUnmarshalSchema,), ns)
                decos[op[2]](op[1])(cls)
                made.append(cls)
                at = max((i + 1 for i, (_, p) in enumerate(custom) if p > op[1]), default=0)
                custom.insert(at, (tag, op[1]))
            else:
                if op[1] == 'Ref' or op[1] == 'Comp' and space is None:
                    continue
                t, el, pick = types[op[1]]
                got = pick(marsh.unmarshal(t, el))
                for tag, _ in custom:
                    if not (isinstance(got, tuple) and got[0] == tag):
                        return f'{op[1]} after {ops}: {got}, wanted what {[t for t, _ in custom]} make of it'
                    got = got[1]
                    if tag[0] == 'reg':
                        if got != e:
                            return f'{op[1]}: the schema got {got}'
                        break
                else:
                    if type(got) is not A or got.x != 3:
                        return f'{op[1]} after {ops}: {got}, wanted an A'
    finally:
        for i in reversed(range(len(reg.priority))):
            if reg.priority[i] in made:
                del reg.priority[i]
        if space is not None:
            del marsh.namespaces['verif_c17']
        marsh.schema.UnmarshalSchema.cache_clear()
    return None


def _marshal(rng):
    return [rng.choice([('use', rng.choice(['A', 'list', 'dict', 'data'])), ('reg', rng.randint(0, 3))]) for _ in range(rng.randint(1, 6))] + [('use', 'A')],


@P.oracle(gen=_marshal, n=500)
def marshal_later(ops):
    """the same for marshaling"""
    @dataclasses.dataclass
    class A:
        x: int = 3

    @dataclasses.dataclass
    class Data:
        a: Any
    reg = marsh.schema.MarshalSchema.registry
    made, custom = [], []
    try:
        for op in ops:
            if op[0] == 'reg':
                tag = f'made by {len(made)}'
                cls = type('Custom', (marsh.schema.MarshalSchema,), {'match': classmethod(lambda cls, v: type(v) is A), 'marshal': lambda self, tag=tag: tag})
                marsh.schema.register(priority=op[1])(cls)
                made.append(cls)
                custom.insert(max((i + 1 for i, (_, p) in enumerate(custom) if p > op[1]), default=0), (tag, op[1]))
            else:
                v, pick = {'A': (A(), lambda e: e), 'list': ([A()], lambda e: e[0]), 'dict': ({'k': A()}, lambda e: e['k']), 'data': (Data(A()), lambda e: e['a'])}[op[1]]
                got, want = pick(marsh.marshal(v)), custom[0][0] if custom else {'x': 3}
                if got != want:
                    return f'{op} after {ops}: {got}, wanted {want}'
    finally:
        for i in reversed(range(len(reg.priority))):
            if reg.priority[i] in made:
                del reg.priority[i]
    return None
