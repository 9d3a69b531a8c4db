"""Persistent classes of the connection harness (imported once per durus copy)."""
from durus.persistent import Persistent, PersistentObject, ComputedAttribute
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet
from durus import btree


def _hash(self):
    """The order of sets (and of what is pickled) must not depend on addresses."""
    return 7


class Bag(Persistent):
    """Arbitrary attributes in __dict__."""
    __hash__ = _hash

    def __init__(self, **kw):
        for k in sorted(kw):
            setattr(self, k, kw[k])

    def bump(self):
        self.n = getattr(self, "n", 0) + 1 if isinstance(getattr(self, "n", 0), int) else 1
        return self.n

    def _get_prop(self):
        return self.__dict__["hidden"]

    def _set_prop(self, v):
        self.hidden = v

    def _del_prop(self):
        del self.hidden

    prop = property(_get_prop, _set_prop, _del_prop)


class Slotted(PersistentObject):
    __slots__ = ["a", "b", "n"]
    __hash__ = _hash

    def __init__(self, **kw):
        for k in sorted(kw):
            setattr(self, k, kw[k])


class Slotted2(Slotted):
    __slots__ = ["c"]


class Mixed(Slotted2):
    """Slots of two base classes, and a __dict__."""


class Single(PersistentObject):
    __slots__ = "value"
    __hash__ = _hash

    def __init__(self, **kw):
        for k in sorted(kw):
            setattr(self, k, kw[k])


class Private(Single):
    """One slot declared by a string, one with a mangled name."""
    __slots__ = ("__p", "q")


class Comp(ComputedAttribute):
    __slots__ = []
    __hash__ = _hash


class Kbag(Bag):
    """Defines __getstate__ and __setstate__ through the base class; has a class default."""
    n = 0


Dict, List, Set, BTree = PersistentDict, PersistentList, PersistentSet, btree.BTree
