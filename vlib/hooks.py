"""Persistent classes that record what the base classes call (importable)."""
from durus.connection import Connection
from durus.persistent import Persistent, PersistentBase, PersistentObject
from durus.persistent import ComputedAttribute
from durus.persistent_dict import PersistentDict

LOG = [] # what has been called
LABELS = {} # id -> label of an object that the program holds


def label(obj):
    return LABELS.get(id(obj)) or type(obj).__name__


def note(text):
    LOG.append(text)


class Recorded(Connection):
    """A connection that records the calls made by persistent objects."""

    name = 'A'

    def note_access(self, obj):
        note('%s.note_access(%s)' % (self.name, label(obj)))
        Connection.note_access(self, obj)

    def note_change(self, obj):
        note('%s.note_change(%s)' % (self.name, label(obj)))
        Connection.note_change(self, obj)

    def load_state(self, obj):
        note('%s.load_state(%s)' % (self.name, label(obj)))
        Connection.load_state(self, obj)


class Refusing(Recorded):
    """Raises now and then."""

    refuse = None

    def note_access(self, obj):
        if self.refuse == 'access':
            raise OverflowError
        Recorded.note_access(self, obj)

    def note_change(self, obj):
        if self.refuse == 'change':
            raise OverflowError
        Recorded.note_change(self, obj)

    def load_state(self, obj):
        if self.refuse == 'load':
            raise OverflowError
        if self.refuse == 'load attribute':
            raise AttributeError('load')
        Recorded.load_state(self, obj)


class Something(object):
    """Not a connection, but it does what persistent objects ask for."""

    def __init__(self, serial):
        self.transaction_serial = serial

    def note_access(self, obj):
        note('something.note_access')
        obj._p_serial = self.transaction_serial

    def note_change(self, obj):
        note('something.note_change')

    def load_state(self, obj):
        note('something.load_state')


class Getattr(Persistent):
    fallback = 0

    def __getattr__(self, name):
        if not name.startswith('_p_'):
            note('__getattr__(%r)' % name)
        if name.startswith('magic'):
            return name
        raise AttributeError(name)


class GetattrRaises(PersistentObject):
    __slots__ = ['a', 'b']

    def __getattr__(self, name):
        if not name.startswith('_p_'):
            note('__getattr__(%r)' % name)
        if name == 'a':
            raise KeyError(name)
        raise AttributeError(name)


class Getattribute(Persistent):

    def __getattribute__(self, name):
        # (The Python base class reads its own attributes in this way, too.)
        if not name.startswith('_p_'):
            note('__getattribute__(%r)' % name)
        return Persistent.__getattribute__(self, name)


class Setattr(Persistent):

    def __setattr__(self, name, value):
        note('__setattr__(%r)' % name)
        Persistent.__setattr__(self, name, value)

    def __delattr__(self, name):
        note('__delattr__(%r)' % name)
        Persistent.__delattr__(self, name)


class Properties(Persistent):

    kind = 'class attribute'

    @property
    def doubled(self):
        note('doubled')
        return self.n * 2

    @doubled.setter
    def doubled(self, value):
        note('set doubled')
        self.n = value // 2

    @doubled.deleter
    def doubled(self):
        note('del doubled')
        del self.n

    @property
    def _p_quiet(self):
        note('_p_quiet')
        return 5

    def method(self, x=None):
        note('method')
        return x

    @classmethod
    def class_method(cls):
        return cls.__name__

    @staticmethod
    def static_method():
        return 7


class Descriptor(object):

    def __get__(self, obj, klass=None):
        note('__get__ %s' % (obj is not None))
        if obj is None:
            return self
        raise ZeroDivisionError

    def __set__(self, obj, value):
        note('__set__')
        if value == 1:
            raise ZeroDivisionError

    def __delete__(self, obj):
        note('__delete__')
        raise LookupError


class Described(PersistentObject):
    __slots__ = ['a']
    d = Descriptor()
    _p_d = Descriptor()


class NoteChange(Persistent):

    def _p_note_change(self):
        note('_p_note_change')
        Persistent._p_note_change(self)


class RefusesChange(Persistent):

    allowed = False

    def _p_note_change(self):
        note('_p_note_change refused')
        raise OverflowError


class LoadState(Persistent):

    def _p_load_state(self):
        note('_p_load_state')
        Persistent._p_load_state(self)


class RefusesLoad(PersistentObject):
    __slots__ = ['a']

    def _p_load_state(self):
        note('_p_load_state refused')
        raise AttributeError('no load')


class SetState(Persistent):

    def __getstate__(self):
        note('__getstate__')
        return Persistent.__getstate__(self)

    def __setstate__(self, state):
        note('__setstate__ %s' % sorted(state))
        Persistent.__setstate__(self, state)


class SetStateRaises(PersistentObject):
    __slots__ = ['a']

    def __setstate__(self, state):
        note('__setstate__')
        PersistentObject.__setstate__(self, state)
        if state:
            raise FloatingPointError


class Status(Persistent):

    def _p_set_status_saved(self):
        note('saved')
        Persistent._p_set_status_saved(self)

    def _p_set_status_unsaved(self):
        note('unsaved')
        Persistent._p_set_status_unsaved(self)

    def _p_set_status_ghost(self):
        note('ghost')
        Persistent._p_set_status_ghost(self)


class New(Persistent):

    def __new__(cls, *args, **kwargs):
        note('__new__ %d %d' % (len(args), len(kwargs)))
        return Persistent.__new__(cls, *args, **kwargs)

    def __init__(self, a=None):
        self.a = a


class Special(Persistent):
    """Special methods look at the state."""

    def __len__(self):
        return len(self.__dict__)

    def __eq__(self, other):
        note('__eq__')
        return isinstance(other, Special) and self.n == other.n

    def __hash__(self):
        return 5

    def __bool__(self):
        return bool(self.n)

    def __call__(self, x):
        return self.n, x

    def __iter__(self):
        return iter(sorted(self.__dict__))

    def __getitem__(self, i):
        return getattr(self, i)

    def __contains__(self, x):
        return hasattr(self, x)

    def __str__(self):
        return 'Special %s' % self.n


class Mixin(object):

    mixed = 'mixin'

    def mix(self):
        self.mixed = 'instance'


class WithMixin(Mixin, Persistent):
    pass


class SlotsOnly(PersistentObject):
    __slots__ = ['a', 'b', '__private', '__r', '__class', '_p_own']


class Bare(PersistentBase):
    """Not a PersistentObject."""


CLASSES = [Persistent, Getattr, GetattrRaises, Getattribute, Setattr,
           Properties, Described, NoteChange, RefusesChange, LoadState,
           RefusesLoad, SetState, SetStateRaises, Status, New, Special,
           WithMixin, SlotsOnly, PersistentDict, ComputedAttribute]
