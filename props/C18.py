"""SafeDict is a dictionary, also for keys that can not be hashed."""
import collections
import marsh
from pyvc.prop import Prop, Skip
from .common import *  # noqa
from .common import NS

P = Prop('C18', modules=['containers'], extra_modules=['kinds', 'path', 'element', 'cast', 'schemas', 'structured', 'marshaling'],
         contracts=['sd_get', 'sd_len', 'sd_set', 'sd_del', 'remove_order', 'sd_ordered', 'sd_iter', 'sd_reversed'],
         lemmas=['uset_get', 'oseq_snoc', 'elen_set', 'pairs_rev', 'llen_rev', 'ufirst_range', 'C18_new_hashable', 'C18_new_unhashable', 'C18_removed', 'C18_removed_u', 'C18_inv_removed', 'C18_inv_removed_u', 'C18_dist_removed', 'C18_dist_new', 'C18_inv_first', 'C18_dist_first', 'fresh_ent', 'valid_app', 'valid_more', 'ekeys_rev', 'omap_rev', 'valid_rev'],
         rule='random histories of set, get, del, pop, clear, setdefault, update over hashable and unhashable keys, compared with an association list',
         limits=['a hashable and an unhashable key count as different keys even where they are equal (frozenset() and set())', 'the methods that collections.abc.MutableMapping adds (pop, update, clear, ...) are covered by the bounded check only'])
P.replay_ns = NS


class L2(list):
    pass


KEYS = ['a', 'b', 1, True, 1.0, 0, None, (1, 2), (), frozenset({1}), -1, -2, [1], [1.0], [2], [], {}, {'a': 1}, {'a': [1]}, {1, 2}, {2, 1}, (1, [2]), ([],), bytearray(b'x'), [[1]], 'c', 2, collections.OrderedDict(a=1), collections.UserList([1]), L2([2]), L2([[1]])]


def unhashable(k):
    try:
        hash(k)
    except TypeError:
        return True
    return False


def same_key(a, b):
    return unhashable(a) == unhashable(b) and a == b


def _ops(rng):
    pool = rng.sample(range(len(KEYS)), rng.randint(1, 8))
    return ([(rng.choice(['set', 'set', 'set', 'set', 'del', 'del', 'get', 'pop', 'setdefault', 'update', 'clear' if rng.random() < .1 else 'set']), rng.choice(pool), rng.randint(0, 9)) for _ in range(rng.randint(1, 20))],)


@P.oracle(gen=_ops, n=6000)
def laws(ops):
    """the same entries in the same order as an association list"""
    d, m = marsh.utils.SafeDict(), []

    def find(k):
        return next((i for i, (x, _) in enumerate(m) if same_key(x, k)), None)
    for op, n, v in ops:
        k = KEYS[n]
        i = find(k)
        want = got = None
        before = list(m)
        if op in ('set', 'update', 'setdefault'):
            if i is None:
                m.append((k, v))
            elif op != 'setdefault':
                m[i] = (m[i][0], v)
        elif op in ('del', 'pop'):
            want = KeyError if i is None else m.pop(i)[1] if op == 'pop' else m.pop(i) and None
        elif op == 'get':
            want = KeyError if i is None else m[i][1]
        else:
            m = []
        try:
            if op == 'set':
                d[k] = v
            elif op == 'update':
                d.update([(k, v)])
            elif op == 'setdefault':
                d.setdefault(k, v)
            elif op == 'del':
                del d[k]
            elif op == 'pop':
                got = d.pop(k)
            elif op == 'get':
                got = d[k]
            else:
                d.clear()
        except KeyError:
            got = KeyError
        if got != want:
            return f'{op} {k!r} on {before}: {got!r}, wanted {want!r}'
        items = list(d.items())
        if repr(items) != repr(m):
            return f'{op} {k!r}, {v} on {before}: {items}, wanted {m}'
        if len(d) != len(m) or list(map(repr, reversed(d))) != [repr(x) for x, _ in reversed(m)] or bool(d) != bool(m):
            return f'{op} {k!r}: len {len(d)} or reversed {list(reversed(d))} of {m}'
        for j, x in enumerate(KEYS):
            at = find(x)
            if (x in d) != (at is not None) or d.get(x, 'none') != ('none' if at is None else m[at][1]):
                return f'after {op} {k!r}: {x!r} in {m}: {x in d}, {d.get(x)!r}'
    return None
