"""The persistent classes used by the workloads (importable, for pickling)."""
from durus.persistent import Persistent, PersistentObject, ComputedAttribute
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet
from durus.btree import BTree, BNode, BNode4, BNode16


class Node(Persistent):
    """Anything goes in the instance dictionary."""


class Leaf(Persistent):
    label = 'class attribute'


class SubNode(Node):
    pass


class SubSubNode(SubNode):
    pass


class Slotted(PersistentObject):
    __slots__ = ['a', 'b', '__c']

    def get_c(self):
        return self.__c

    def set_c(self, value):
        self.__c = value

    def del_c(self):
        del self.__c


class SlottedChild(Slotted):
    __slots__ = ['d', '__c']

    def get_cc(self):
        return self.__c

    def set_cc(self, value):
        self.__c = value

    def del_cc(self):
        del self.__c


class Dict2(PersistentDict):
    pass


class Computed(ComputedAttribute):
    pass


class _Under(PersistentObject):
    __slots__ = ['__v', '_w']

    def get_v(self):
        return self.__v

    def set_v(self, value):
        self.__v = value

    def del_v(self):
        del self.__v


class __(PersistentObject):
    __slots__ = ['__v', 'w']


class OneSlot(PersistentObject):
    __slots__ = 'single'


class Mixed(SlottedChild):
    """Slots and an instance dictionary."""


class MixedSlots(Mixed):
    __slots__ = ['e', '__c']

    def get_ccc(self):
        return self.__c

    def set_ccc(self, value):
        self.__c = value


class Empty(PersistentObject):
    __slots__ = []


class NoneState(PersistentObject):
    """Has state in memory, but stores None."""
    __slots__ = ['a']

    def __getstate__(self):
        return None


class TupleState(PersistentObject):
    """Stores something other than a dictionary."""
    __slots__ = ['items']

    def __init__(self):
        self.items = []

    def __getstate__(self):
        if self._p_is_ghost():
            self._p_load_state()
        return tuple(self.items)

    def __setstate__(self, state):
        from durus.persistent import _setattribute, _hasattribute, _delattribute
        if state:
            _setattribute(self, 'items', list(state))
        elif _hasattribute(self, 'items'):
            _delattribute(self, 'items')
        if state == ():
            _setattribute(self, 'items', [])


class Plain(object):
    """A class that is not persistent."""

    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


class PlainReduce(object):

    def __init__(self, a, b=None):
        self.a = a
        self.b = b

    def __reduce__(self):
        return PlainReduce, (self.a,), {'b': self.b}


class IntSubclass(int):
    pass


class StrSubclass(str):
    pass


class ListSubclass(list):
    pass


class DictSubclass(dict):
    pass
