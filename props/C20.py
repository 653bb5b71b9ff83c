"""IterableFromIterator: every iteration sees every item."""
import marsh
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C20', modules=['containers'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling'],
         contracts=['iter_all', 'iter_bool'], lemmas=['ltake_0', 'ltake_all', 'ltake_step'],
         rule='random schedules of several iterations (and truth tests) over one iterator, also iterations that are started, abandoned or finished at any point',
         limits=['the iterator is assumed not to raise and not to iterate over its own wrapper; no threads'])
P.replay_ns = NS


def _sched(rng):
    n = [rng.choice([None, 0, '', 'fresh', 'fresh']) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 8]))]
    its = rng.randint(1, 4)
    return n, [rng.choice(['new', 'bool', 'list', 'drop'] + ['next'] * 8) if rng.random() < .9 else 'next' for _ in range(rng.randint(1, 40))], [rng.randint(0, its - 1) for _ in range(40)]


@P.oracle(gen=_sched, n=6000)
def schedules(n, ops, who):
    """all items in order, for any interleaving, and no item is taken before it is asked for"""
    items = [[i] if x == 'fresh' else x for i, x in enumerate(n)]
    n = len(items)
    taken = []

    def source():
        for x in items:
            taken.append(x)
            yield x
    it = marsh.utils.IterableFromIterator(source())
    runs = {}
    need = 0
    for op, w in zip(ops, who):
        if op == 'new' or op == 'next' and w not in runs:
            runs[w] = [iter(it), 0]
        elif op == 'drop':
            runs.pop(w, None)
        elif op == 'bool':
            need = max(need, min(1, n))
            if bool(it) != (n > 0):
                return f'bool is {bool(it)} with {n} items'
        elif op == 'list':
            need = n
            got = list(it)
            if len(got) != n or any(a is not b for a, b in zip(got, items)):
                return f'list gives {got} of {items}'
        if op == 'next':
            r = runs[w]
            got = next(r[0], 'end')
            want = items[r[1]] if r[1] < n else 'end'
            if got is not want and got != want:
                return f'iteration {w} got {got} as item {r[1]} of {n}'
            r[1] += 1
            need = max(need, min(r[1], n))
        if len(taken) > need:
            return f'{len(taken)} items are taken from the iterator, {need} were asked for'
    got = list(it)
    if len(got) != n or any(a is not b for a, b in zip(got, items)):
        return f'at last, list gives {got} of {items}'
    return None


@P.oracle(gen=lambda rng: (rng.randint(0, 5), rng.randint(1, 3)), n=200)
def loops(n, depth):
    """nested loops over the same iterable"""
    it = marsh.utils.IterableFromIterator(iter(range(n)))
    import itertools
    if depth == 1:
        got = [(a,) for a in it]
    elif depth == 2:
        got = [(a, b) for a in it for b in it]
    else:
        got = [(a, b, c) for a in it for b in it for c in it]
    want = list(itertools.product(range(n), repeat=depth))
    return None if got == want else f'{got[:20]} wanted {want[:20]}'
