"""A property: contracts and lemmas that decide it, and bounded oracles that
are evaluated on the real code (search for failing inputs; never counted as
proved)."""
from __future__ import annotations

PROPS = {}


class Skip(Exception):
    """The generated input is outside the property's scope."""


class Oracle:
    def __init__(self, name, fn, gen, enum, n, doc):
        self.name, self.fn, self.gen, self.enum, self.n, self.doc = name, fn, gen, enum, n, doc


class Prop:
    def __init__(self, id, modules, contracts=None, lemmas=(), trusted=(), level='proof', rule='', limits=(), bounded=(), extra_modules=()):
        self.id, self.modules, self._contracts, self.lemmas = id, list(modules) + list(extra_modules), contracts, list(lemmas)
        self.trusted, self.level, self.rule, self.limits = list(trusted), level, rule, list(limits)
        self.bounded = list(bounded)        # functions only covered by the bounded part
        self.oracles = {}
        PROPS[id] = self

    def oracle(self, gen=None, enum=None, n=1500, name=None):
        def deco(fn):
            o = Oracle(name or fn.__name__, fn, gen, enum, n, (fn.__doc__ or '').strip())
            assert o.name not in self.oracles
            self.oracles[o.name] = o
            return fn
        return deco
