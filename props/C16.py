"""PriorityOrder: where a value is inserted, and that nothing else moves."""
import marsh
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C16', modules=['containers'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling'],
         contracts=['get_relation', 'has_relation', 'rel_gt', 'rel_lt', 'find_index', 'add', 'reload', 'priority_del', 'priority_get', 'priority_len'],
         lemmas=['C16_others_keep_order', 'C16_inserted', 'C16_before_lower', 'C16_behind_higher', 'fidx_shift', 'noneabove_0', 'first_range'],
         rule='random histories of add (with priorities, relative priorities and replace), del and reload over few values',
         limits=['relative priorities are matched by hash: values with equal hashes are taken for each other', 'cycles of three and more values are not detected (documented in the code)'])
P.replay_ns = NS
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g']


class Entry:
    def __init__(self, value, prio, lower, higher, nr):
        self.value, self.prio, self.lower, self.higher, self.nr = value, prio, set(lower), set(higher), nr

    def above(self, o):
        return o.value in self.lower or self.value in o.higher

    def below(self, o):
        return o.value in self.higher or self.value in o.lower

    def related(self, o):
        return self.above(o) or self.below(o)


def place(w, es):
    """the list with w inserted, or None when it is stated to be both above and below another"""
    at = 0
    for i, e in enumerate(es):
        if w.above(e) and w.below(e):
            return None
        if w.above(e):
            break
        if w.below(e) or w.prio < e.prio:
            at = i + 1
    return es[:at] + [w] + es[at:]


def _ops(rng):
    ops = []
    for _ in range(rng.randint(1, 12)):
        k = rng.random()
        if k < .72:
            rel = lambda: rng.sample(NAMES, rng.choice([0, 0, 0, 1, 1, 2, 3]))
            ops.append(('add', rng.choice(NAMES), rng.choice([0, 0, 0, 1, 2, -1, 5]), rel(), rel() if rng.random() < .4 else [], rng.random() < .3, rng.choice(['list', 'set', 'one', 'deco', 'tuple', 'gen', 'iter', 'dict'])))
        elif k < .84:
            ops.append(('del', rng.randint(-4, 6)))
        elif k < .96:
            a, b = sorted((rng.choice([0, 1, 2, 3, -2, None], ), rng.choice([1, 2, 3, 4, 5, -1, None])), key=str)
            ops.append(('delslice', a, b, rng.choice([None, None, 2, -1])))
        else:
            ops.append(('reload',))
    return (ops,)


class V:
    """a value with a hash of its own choosing"""

    def __init__(self, name, big):
        self.name, self.h = name, hash(name) if not big else (1 << 61) + NAMES.index(name) * 7 + 3

    def __eq__(self, o):
        return isinstance(o, V) and o.name == self.name

    def __hash__(self):
        return self.h

    def __repr__(self):
        return self.name


@P.oracle(gen=_ops, n=6000)
def order(ops):
    """the order after a history of changes is the one that the priorities say"""
    po = marsh.utils.PriorityOrder()
    vals = {n: V(n, False) for n in NAMES}
    es, nr = [], 0
    for op in ops:
        before = [v.name for v in po]
        failed = None
        if op[0] == 'add':
            _, name, prio, lower, higher, replace, form = op
            if form == 'one':
                lower, higher = lower[:1], higher[:1]

            def rel(xs):
                if not xs:
                    return None
                vs = [vals[x] for x in xs]
                return vs[0] if form == 'one' else set(vs) if form == 'set' else tuple(vs) if form == 'tuple' else (v for v in vs) if form == 'gen' else iter(vs) if form == 'iter' else dict.fromkeys(vs) if form == 'dict' else vs
            new = None
            w = Entry(name, prio, lower, higher, nr)
            if not set(lower) & set(higher):
                nr += 1
                dup = [e for e in es if e.value == name]
                if not dup or replace:
                    new = place(w, [e for e in es if e.value != name])
            kw = dict(priority=prio, lower_priority=rel(lower), higher_priority=rel(higher), replace=replace)
            try:
                r = po.add(**kw)(vals[name]) if form == 'deco' else po.add(vals[name], **kw)
            except ValueError:
                failed = True
            else:
                if r is not vals[name]:
                    return f'{op}: add gave {r!r}'
            if (new is None) != bool(failed):
                return f'{op} on {before}: ' + ('rejected' if failed else 'accepted')
            if new is not None:
                es = new
        elif op[0] in ('del', 'delslice'):
            key = op[1] if op[0] == 'del' else slice(*op[1:])
            try:
                gone = [es[key]] if op[0] == 'del' else es[key]
            except IndexError:
                gone = None
            left = list(es)
            if gone is not None:
                del left[key]
                if any(e.related(g) for e in left for g in gone):
                    left = again(left)
                    if left is None:
                        return None      # what is left is contradictory
            try:
                del po[key]
            except IndexError:
                failed = True
            if failed != (True if gone is None else None):
                return f'{op} on {before}: ' + ('rejected' if failed else 'accepted')
            if gone is not None:
                es = left
        else:
            left = again(es)
            if left is None:
                return None
            po.reload()
            es = left
        now = [v.name for v in po]
        if now != [e.value for e in es]:
            return f'{op} on {before}: the order is {now}, wanted {[e.value for e in es]}'
        if len(po) != len(now) or any(po[i].name != n for i, n in enumerate(now)) or any(vals[n] not in po for n in now):
            return f'{op}: len, indices or membership do not fit {now}'
        if [v.name for v in po[1:3]] != now[1:3] or [v.name for v in reversed(po)] != now[::-1]:
            return f'{op}: slices or reversed do not fit {now}'
    return None


def again(es):
    out = []
    for e in sorted(es, key=lambda e: e.nr):
        out = place(e, out)
        if out is None:
            return None
    return out


def _one(rng):
    return (_ops(rng)[0], rng.choice(NAMES), rng.choice([0, 0, 1, -1, 2]), rng.sample(NAMES, rng.randint(0, 3)))


@P.oracle(gen=_one, n=3000)
def position(ops, name, prio, lower):
    """one addition: in front of all it is stated to be above, the others unmoved"""
    po = marsh.utils.PriorityOrder()
    prios = {}
    for op in ops:
        if op[0] == 'add':
            try:
                po.add(op[1], priority=op[2])
                prios[op[1]] = op[2]
            except ValueError:
                pass
    if name in prios:
        raise Skip
    before = list(po)
    if before != sorted(before, key=lambda v: -prios[v]):
        return f'not in order of priority: {[(v, prios[v]) for v in before]}'
    po.add(name, priority=prio, lower_priority=[x for x in lower if x != name])
    now = list(po)
    if [v for v in now if v != name] != before:
        return f'{before} became {now}: others moved'
    i = now.index(name)
    if any(v in lower for v in now[:i] if v != name):
        return f'{now}: {name} is not in front of {lower}'
    low = [v for v in now[i + 1:] if v in lower]
    if not low and (any(prios[v] <= prio for v in now[:i]) or any(prios[v] > prio for v in now[i + 1:])):
        return f'{[(v, prios.get(v, prio)) for v in now]}: {name} is not in front of the equal ones and behind the higher ones'
    return None
