"""
C07: the C and the Python base classes do the same.
C08: the C extension under sanitizers, and its reference counts.
"""
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import re
import subprocess
import sys
import weakref

from durus.connection import Connection, touch_every_reference
from durus.error import ReadConflictError
from durus.persistent import PersistentBase, PersistentObject, Persistent
from durus.persistent import ConnectionBase, call_if_persistent
from durus.persistent import _setattribute, _delattribute
from durus.persistent import _getattribute, _hasattribute
from durus.storage import MemoryStorage
from durus.utils import int8_to_str

from vlib import classes, hooks
from vlib.case import Violation, Inconclusive, require, equal, short
from vlib.storages import Shared, View

NAMES = ['a', 'b', 'n', 'x', 'value', 'doubled', 'kind', 'mixed', 'd', 'data',
         '_p_x', '_p_', '_px', '_p', '_', '__', '__x', '__r', '__repr__',
         '__repr', '__repr__x', '__class', '__classy', '__setstate',
         '__setstate__x', '__sx', '__dict', '', 'p_', '_P_x', '_p_quiet',
         '_p_d', '_p_own', 'magic', 'magic1', 'nothing', 'ä', '\u20ac',
         '\U0001f600', '\udc80', '_p_\udc80', '_\udc80', '__repr__\0',
         '_p_\0', '\0', '_\0p_', 'x' * 300, '_p_' + 'y' * 300, 'a b',
         '_Slotted__c', '_SlotsOnly__private', '_SlotsOnly__r', 'label', 'c',
         'e', 'w', 'single', 'items', 'method', 'class_method', 'mix',
         'static_method']
READ_ONLY_NAMES = ['__dict__', '__class__', '__doc__', '__repr__',
                   '__setstate__', '__getstate__', '__module__', '__init__',
                   '__reduce_ex__', '__eq__', '__hash__', '__len__',
                   '_p_oid', '_p_serial', '_p_status', '_p_connection',
                   '_p_is_ghost', '__slots__', '__weakref__', '__call__']
SHAPES = hooks.CLASSES + [
    classes.Node, classes.Leaf, classes.Slotted, classes.SlottedChild,
    classes._Under, classes.OneSlot, classes.Mixed, classes.MixedSlots,
    classes.Empty, classes.NoneState, classes.TupleState, classes.Dict2,
    classes.PersistentList, classes.PersistentSet, classes.BTree]
ADDRESS = re.compile('@[0-9a-f]+|0x[0-9a-f]+')


def number(obj):
    oid = getattr(obj, '_p_oid', None)
    return int.from_bytes(oid, 'big') if oid is not None else '?'


class Elusive(object):
    """It does not tell its class."""
    @property
    def __class__(self):
        raise LookupError('class')


class TooDeep(Exception):
    pass


class FlakyView(View):

    failing = None

    def load(self, oid):
        if self.failing == 'key':
            raise KeyError(oid)
        if self.failing == 'conflict':
            raise ReadConflictError([oid])
        if self.failing == 'error':
            raise OSError('load')
        if self.failing == 'attribute':
            raise AttributeError('load')
        return View.load(self, oid)


class Program(object):
    """Does the same for the same seed, whatever the base classes are."""

    def __init__(self, seed, hostile=False):
        self.rng = random.Random(seed)
        self.hostile = hostile
        self.trace = []
        hooks.LOG = self.trace
        hooks.LABELS = {}
        self.shared = Shared()
        self.objects = []
        self.views = []
        self.connections = []
        for name in 'AB':
            view = FlakyView(self.shared)
            klass = self.rng.choice([hooks.Recorded, hooks.Refusing])
            connection = klass(view, cache_size=self.rng.choice([1, 3, 1000]))
            connection.name = name
            self.views.append(view)
            self.connections.append(connection)
            connection.abort()
            self.keep(connection.get_root(), 'root' + name)

    def close(self):
        hooks.LOG = []
        hooks.LABELS = {}

    # Describing what is seen

    def keep(self, obj, label):
        if id(obj) not in hooks.LABELS:
            hooks.LABELS[id(obj)] = label
            self.objects.append(obj)
        return obj

    def show(self, x, depth=0):
        if isinstance(x, PersistentBase):
            known = hooks.LABELS.get(id(x))
            if known is None:
                return '<new %s>' % type(x).__name__
            return known
        if depth > 4:
            return '...'
        if isinstance(x, dict):
            return '{%s}' % ', '.join('%s: %s' % (
                self.show(k, depth + 1), self.show(v, depth + 1))
                for k, v in x.items())
        if type(x) in (list, tuple):
            return '%s(%s)' % (type(x).__name__, ', '.join(
                self.show(v, depth + 1) for v in x))
        if isinstance(x, (set, frozenset)):
            return 'set %s' % sorted(self.show(v, depth + 1) for v in x)
        if isinstance(x, type):
            return 'class ' + x.__name__
        if isinstance(x, (int, float, bytes, bool, type(None))):
            return repr(x)
        if isinstance(x, str):
            return repr(ADDRESS.sub('@', x))
        if isinstance(x, Connection):
            return 'connection ' + x.name
        return 'a %s' % {
            'builtin_function_or_method': 'method',
            'method-wrapper': 'method', 'method_descriptor': 'function',
            'wrapper_descriptor': 'function'}.get(
                type(x).__name__, type(x).__name__)

    def statuses(self):
        result = []
        for obj in self.objects:
            if isinstance(obj, PersistentObject):
                connection = getattr(obj, '_p_connection', 'deleted')
                mark = '?'
                if isinstance(connection, Connection):
                    mark = connection.name
                elif connection is None:
                    mark = '-'
                serial = getattr(obj, '_p_serial', None)
                result.append('%s%s%s' % (
                    {1: 'U', 0: 'S', -1: 'G'}.get(obj._p_status,
                                                  obj._p_status),
                    mark, serial))
        return ' '.join(result)

    def attempt(self, text, function):
        self.trace.append('> ' + text)
        start = len(self.trace)
        try:
            result = function()
        except MemoryError:
            raise
        except RecursionError:
            # How deep it gets is not the same everywhere.
            del self.trace[start:]
            self.trace.append('  too deep')
            if self.hostile < 2:
                raise TooDeep
            return None
        except TooDeep:
            raise
        except Exception as e:
            self.trace.append('  raised %s' % type(e).__name__)
            return None
        self.trace.append('  ' + self.show(result))
        return result

    # Choosing

    def some(self):
        # Rather recent ones.
        objects = self.objects
        if self.rng.random() < 0.5:
            return self.rng.choice(objects[-4:])
        return self.rng.choice(objects)

    def name_of(self, obj):
        return hooks.LABELS[id(obj)]

    def scalar(self):
        return self.rng.choice([0, 1, 2, -5, 2**70, 1.5, 'text', '\udc80',
                                b'\x00', None, True, (), (1, 'a')])

    def value(self):
        n = self.rng.random()
        if n < 0.5:
            return self.scalar()
        if n < 0.6:
            return [self.scalar(), self.some()]
        if n < 0.7:
            return {'k': self.scalar(), 'o': self.some()}
        if n < 0.72:
            return lambda: 0
        return self.some()

    def step(self):
        rng = self.rng
        n = rng.randrange(40)
        obj = self.some()
        who = self.name_of(obj)
        name = rng.choice(NAMES)
        if n < 4:
            klass = rng.choice(SHAPES)
            args = () if rng.random() < 0.9 else (self.scalar(),)
            new = self.attempt('%s%r' % (klass.__name__, args),
                               lambda: klass(*args))
            if new is not None:
                label = '%s%d' % (klass.__name__, len(self.objects))
                self.keep(new, label)
                if rng.random() < 0.7:
                    root = self.connections[rng.randrange(2)].get_root()
                    key = rng.randrange(8)
                    self.attempt('link', lambda: root.__setitem__(key, new))
        elif n < 10:
            name = rng.choice(NAMES + READ_ONLY_NAMES)
            way = rng.randrange(5)
            if way < 2:
                self.attempt('%s.%s' % (who, ascii(name)),
                             lambda: getattr(obj, name))
            elif way == 2:
                self.attempt('hasattr(%s, %s)' % (who, ascii(name)),
                             lambda: hasattr(obj, name))
            elif way == 3:
                self.attempt('getattr(%s, %s, 1)' % (who, ascii(name)),
                             lambda: getattr(obj, name, 1))
            else:
                self.attempt('%s.__getattribute__(%s)' % (who, ascii(name)),
                             lambda: obj.__getattribute__(name))
        elif n < 15:
            value = self.value()
            if rng.random() < 0.8:
                self.attempt('%s.%s = %s' % (who, ascii(name),
                                             self.show(value)),
                             lambda: setattr(obj, name, value))
            else:
                self.attempt('%s.__setattr__(%s)' % (who, ascii(name)),
                             lambda: obj.__setattr__(name, value))
        elif n < 17:
            if rng.random() < 0.8:
                self.attempt('del %s.%s' % (who, ascii(name)),
                             lambda: delattr(obj, name))
            else:
                self.attempt('%s.__delattr__(%s)' % (who, ascii(name)),
                             lambda: obj.__delattr__(name))
        elif n < 22:
            self.function(obj, who, rng.choice(NAMES + READ_ONLY_NAMES[:12]))
        elif n < 25:
            self.internals(obj, who)
        elif n < 28:
            self.special(obj, who)
        elif n < 32:
            self.container(obj, who)
        elif n < 37:
            self.transaction()
        elif n < 38:
            self.duplicate(obj, who)
        else:
            self.failures()

    def function(self, obj, who, name):
        rng = self.rng
        value = self.value()
        target = obj if rng.random() < 0.9 else classes.Plain(x=1)
        function, args = rng.choice([
            ('_setattribute', (target, name, value)),
            ('_delattribute', (target, name)),
            ('_getattribute', (target, name)),
            ('_hasattribute', (target, name)),
            ('_hasattribute', (target, name)),
            ('call_if_persistent', (lambda x: 'called', rng.choice(
                [obj, value, 5, type(obj)]))),
            ('call_if_persistent', (lambda x: 1 // 0, obj)),
            ('call_if_persistent', (7, rng.choice([obj, value])))])
        if function[0] == '_' and name in ('__class__', '__dict__') and (
            function in ('_setattribute', '_delattribute')):
            return
        if rng.random() < 0.05:
            args = args[:-1] if rng.random() < 0.5 else args + (1,)
        elif rng.random() < 0.03 and function[0] == '_':
            args = (args[0], 5) + args[2:]
        f = globals()[function]
        self.attempt('%s(%s)' % (function, ', '.join(
            ascii(x) if isinstance(x, str) else self.show(x) for x in args)),
            lambda: f(*args))

    def internals(self, obj, who):
        rng = self.rng
        if not isinstance(obj, PersistentObject):
            return
        n = rng.randrange(14)
        if n < 2:
            self.attempt('%s._p_note_change()' % who,
                         lambda: obj._p_note_change())
        elif n < 6 and obj._p_is_saved() and rng.random() < 0.9:
            self.attempt('%s._p_set_status_ghost()' % who,
                         lambda: obj._p_set_status_ghost())
        elif n == 6 and obj._p_is_ghost():
            self.attempt('%s._p_load_state()' % who,
                         lambda: obj._p_load_state())
        elif n == 7:
            self.attempt('format %s' % who, lambda: obj._p_format_oid())
        elif n == 8:
            self.attempt('slots of %s' % who,
                         lambda: list(obj._p_gen_data_slots()))
        elif n == 9:
            self.attempt('state of %s' % who, lambda: obj.__getstate__())
        elif n == 10 and obj._p_is_unsaved() and (
            getattr(obj, '_p_oid', 0) is None):
            state = {'a': 1} if rng.random() < 0.5 else {}
            self.attempt('%s.__setstate__' % who,
                         lambda: obj.__setstate__(state))
        elif n == 11:
            self.attempt('bare', lambda: self.bare())
        elif n == 12 and self.hostile > 1:
            name = rng.choice(['_p_oid', '_p_serial', '_p_connection'])
            self.attempt('del %s.%s' % (who, name),
                         lambda: delattr(obj, name))
        elif n == 13 and self.hostile:
            other = rng.choice([None, hooks.Something(
                                    getattr(obj, '_p_serial', 0)),
                                hooks.Something(10**9), object(), 5, 'text',
                                ] + self.connections +
                               [obj] * (self.hostile > 1))
            self.attempt('%s._p_connection = %s' % (who, self.show(other)),
                         lambda: setattr(obj, '_p_connection', other))
        else:
            self.attempt('%s is' % who, lambda: (
                obj._p_is_ghost(), obj._p_is_unsaved(), obj._p_is_saved()))

    def bare(self):
        klass = self.rng.choice([PersistentBase, hooks.Bare, ConnectionBase])
        x = klass()
        result = []
        for function in [
            lambda: x._p_status, lambda: x._p_oid, lambda: x._p_connection,
            lambda: x._p_serial, lambda: x.transaction_serial,
            lambda: x.other, lambda: setattr(x, 'other', 1),
            lambda: x.other, lambda: delattr(x, '_p_nothing'),
            lambda: weakref.ref(x) and None, lambda: klass(1, 2, a=3) and 1,
            lambda: isinstance(x, PersistentBase)]:
            try:
                result.append(function())
            except Exception as e:
                result.append(type(e).__name__)
        return result

    def special(self, obj, who):
        rng = self.rng
        other = self.some()
        name, function = rng.choice([
            ('repr', lambda: repr(obj)), ('str', lambda: str(obj)),
            ('hash', lambda: hash(obj) and 0), ('bool', lambda: bool(obj)),
            ('eq', lambda: obj == other), ('ne', lambda: obj != other),
            ('len', lambda: len(obj)), ('call', lambda: obj(5)),
            ('iter', lambda: list(obj)), ('in', lambda: 'a' in obj),
            ('vars', lambda: vars(obj)), ('dir', lambda: dir(obj) and 0),
            ('callable', lambda: callable(obj)),
            ('isinstance', lambda: isinstance(obj, (Persistent, int))),
            ('weakref', lambda: weakref.ref(obj)() is obj),
            ('lt', lambda: obj < other), ('bytes', lambda: bytes(obj)),
            ('format', lambda: '%s' % obj),
            ('dict', lambda: setattr(obj, '__dict__', {'a': 1})),
            ('class', lambda: setattr(obj, '__class__', classes.Leaf)),
            ('get', lambda: obj.get(lambda: 5)),
            ('method', lambda: obj.method(5)), ('mix', lambda: obj.mix()),
            ('index', lambda: obj[0]), ('invalidate',
                                        lambda: obj.invalidate())])
        if name == 'class' and type(obj) not in (
            classes.Node, classes.Leaf, Persistent, hooks.NoteChange):
            return
        self.attempt('%s(%s)' % (name, who), function)

    def container(self, obj, who):
        rng = self.rng
        key = rng.choice([0, 1, 2, 'a', 7, (1, 2)])
        value = self.value()
        name, function = rng.choice([
            ('setitem', lambda: obj.__setitem__(key, value)),
            ('getitem', lambda: obj.__getitem__(key)),
            ('delitem', lambda: obj.__delitem__(key)),
            ('contains', lambda: key in obj),
            ('append', lambda: obj.append(value)),
            ('add', lambda: obj.add(key)),
            ('discard', lambda: obj.discard(key)),
            ('pop', lambda: obj.pop()), ('clear', lambda: obj.clear()),
            ('update', lambda: obj.update({5: value})),
            ('extend', lambda: obj.extend([1, value])),
            ('items', lambda: list(obj.items())),
            ('setdefault', lambda: obj.setdefault(key, value)),
            ('get', lambda: obj.get(key)),
            ('sort', lambda: obj.sort()), ('copy', lambda: obj.copy() and 0),
            ('slice', lambda: obj[0:2])])
        self.attempt('%s(%s, %s)' % (name, who, key), function)

    def transaction(self):
        rng = self.rng
        i = rng.randrange(2)
        connection = self.connections[i]
        n = rng.randrange(12)
        if n < 4:
            self.attempt('%s.commit()' % connection.name, connection.commit)
            if self.trace[-1].startswith('  raised'):
                self.attempt('%s.abort()' % connection.name, connection.abort)
        elif n < 7:
            self.attempt('%s.abort()' % connection.name, connection.abort)
        elif n < 10:
            oid = int8_to_str(rng.randrange(1 + self.shared.next_oid))
            found = self.attempt('%s.get(%r)' % (connection.name, oid),
                                 lambda: connection.get(oid))
            if found is not None:
                self.keep(found, '%s:%s' % (connection.name,
                                            number(found)))
        elif n == 10:
            def crawl():
                result = []
                for obj in connection.get_crawler(batch_size=3):
                    result.append(self.keep(obj, '%s:%s' % (
                        connection.name, obj._p_format_oid())))
                return result
            self.attempt('%s.get_crawler()' % connection.name, crawl)
        else:
            self.attempt('%s.shrink_cache()' % connection.name,
                         connection.shrink_cache)

    def duplicate(self, obj, who):
        rng = self.rng
        n = rng.randrange(4)
        def state(x):
            if isinstance(x, PersistentObject):
                return (type(x).__name__, x._p_status, x._p_oid,
                        sorted(k for k in x.__getstate__() or ()
                               if isinstance(k, str)))
        if n < 2:
            self.attempt('copy(%s)' % who, lambda: state(copy.copy(obj)))
        elif getattr(obj, '_p_oid', 0) is None:
            # (Protocols 0 and 1 refuse instances of classes written in C.)
            protocol = rng.randrange(2, pickle.HIGHEST_PROTOCOL + 1)
            def transport():
                data = pickle.dumps(obj, protocol)
                return state(pickle.loads(data))
            self.attempt('pickle(%s, %d)' % (who, protocol), transport)

    def failures(self):
        rng = self.rng
        i = rng.randrange(2)
        if rng.random() < 0.5:
            self.views[i].failing = rng.choice(
                [None, None, 'key', 'conflict', 'error', 'attribute'])
            self.trace.append('> view %d fails with %s' % (
                i, self.views[i].failing))
        else:
            self.connections[i].refuse = rng.choice(
                [None, None, None, 'access', 'change', 'load',
                 'load attribute'])
            self.trace.append('> connection %d refuses %s' % (
                i, self.connections[i].refuse))

    def records(self):
        text = []
        for oid in sorted(self.shared.records):
            text.append('%d %s' % (int.from_bytes(oid, 'big'), hashlib.sha1(
                self.shared.records[oid]).hexdigest()[:10]))
        return text

    def run(self, steps):
        recorded = []
        for i in range(steps):
            self.step()
            self.trace.append('  ' + self.statuses())
            if self.shared.records and i % 5 == 0:
                records = self.records()
                if records != recorded:
                    self.trace.append('  records %s' % records)
                    recorded = records
        for view in self.views:
            view.failing = None
        for connection in self.connections:
            connection.refuse = None
            self.attempt('final abort', connection.abort)
            self.attempt('final commit', connection.commit)
        self.trace.append('  ' + self.statuses())
        self.trace.append('  records %s' % self.records())
        return self.trace


def trace_of(seed):
    rng = random.Random(seed)
    program = Program(seed, hostile=int(rng.random() < 0.3))
    try:
        return program.run(rng.choice([10, 40, 150]))
    except TooDeep:
        return program.trace
    finally:
        program.close()


class Helper(object):
    """A process with the other base classes."""

    def __init__(self, env):
        from vlib.core import base_env
        self.process = subprocess.Popen(
            [sys.executable, '-c',
             'import sys; sys.path.insert(0, %r); from vlib import boot; '
             'boot.boot(None, %r); from checks import cext; cext.serve()' % (
                 os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 env.repo)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=base_env())

    def ask(self, seed):
        self.process.stdin.write(('%s\n' % seed).encode())
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise Violation('the program ended the interpreter with the '
                            'Python base classes')
        return json.loads(line)


def serve():
    for line in sys.stdin:
        try:
            trace = trace_of(line.strip())
        except BaseException as e:
            trace = ['the program failed: %s %s' % (type(e).__name__, e)]
        sys.stdout.write(json.dumps(trace) + '\n')
        sys.stdout.flush()
        gc.collect()


HELPER = []


def same_traces(rng, env):
    if not HELPER:
        HELPER.append(Helper(env))
    seed = '%d' % rng.getrandbits(60)
    env.op('program', seed)
    try:
        mine = trace_of(seed)
    except Exception as e:
        mine = ['the program failed: %s %s' % (type(e).__name__, e)]
    mine = json.loads(json.dumps(mine))
    theirs = HELPER[0].ask(seed)
    for i, (a, b) in enumerate(zip(mine, theirs)):
        if a != b:
            env.trace.extend(mine[max(0, i - 60):i])
            equal(a, b, 'the C base classes (observed) and the Python base '
                  'classes (expected) differ at event %d after %r',
                  i, [x for x in mine[:i + 1] if x[0] == '>'][-1:])
    equal(len(mine), len(theirs), 'length of the trace')
    env.hash.update('\n'.join(mine).encode('utf8', 'replace'))
    env.trace.extend(mine[:40])
    for line in mine:
        if line.startswith('>'):
            env.count('operations')
        elif line.startswith('  raised'):
            env.count('exceptions')
        elif line == '  too deep':
            env.count('programs that ended with a RecursionError')
        elif '.note_access' in line:
            env.count('accesses')
        elif '.note_change' in line:
            env.count('changes')
        elif '.load_state' in line:
            env.count('loads')
        elif line.startswith('  records'):
            env.count('records compared')
    if mine and mine[0].startswith('the program failed'):
        raise Violation(mine[0])


# C08

def live(*types):
    return [x for x in gc.get_objects() if isinstance(x, types)]


def hostile_program(rng, env):
    """Anything may be raised, but nothing else may happen."""
    before = len(live(PersistentBase, ConnectionBase))
    seed = '%d' % rng.getrandbits(60)
    steps = rng.choice([20, 60, 200])
    threshold = rng.choice([700, 700, 50, 5, 1])
    env.op('program', seed, steps, threshold)
    was = gc.get_threshold()
    program = Program(seed, hostile=rng.choice([1, 2, 2]))
    gc.set_threshold(threshold)
    try:
        trace = program.run(steps)
    except TooDeep:
        trace = program.trace
    finally:
        gc.set_threshold(*was)
        program.close()
    env.trace.extend(trace[-100:])
    for line in trace:
        if line.startswith('>'):
            env.count('operations')
        elif line.startswith('  raised SystemError'):
            raise Violation('an operation raised SystemError')
        elif line.startswith('  raised'):
            env.count('exceptions')
        elif line.startswith('  too deep'):
            env.count('recursion errors')
    # What is no longer used goes away.
    for obj in program.objects:
        if rng.random() < 0.3:
            env.count('references to cleared objects')
            for other in gc.get_referents(obj):
                pass
    refs = [weakref.ref(c) for c in program.connections]
    del program, trace
    obj = other = None
    gc.collect()
    gc.collect()
    require(all(r() is None for r in refs),
            'a connection that nobody refers to is not collected')
    after = live(PersistentBase, ConnectionBase)
    require(len(after) <= before, '%d objects are still there: %s',
            len(after) - before, short(sorted(
                type(x).__name__ for x in after), 300))
    env.count('collections checked')


class Result(object):
    """What hooks return: it has to go away."""


RESULTS = []


def fresh():
    result = Result()
    RESULTS.append(weakref.ref(result))
    return result


class Returns(Persistent):
    """Its hooks return something new."""

    def _p_note_change(self):
        Persistent._p_note_change(self)
        return fresh()

    def _p_load_state(self):
        Persistent._p_load_state(self)
        return fresh()


class ReturningConnection(Connection):

    mode = 0

    def note_access(self, obj):
        if self.mode == 1:
            raise ValueError(fresh())
        if self.mode == 2:
            return fresh() # without noting it
        Connection.note_access(self, obj)
        return fresh()


class Value(object):
    pass


class Fails(object):
    """A descriptor."""

    def __get__(self, obj, klass=None):
        raise LookupError(fresh())


class Faulty(Persistent):
    fails = Fails()


def expect(exception, function, *args):
    try:
        function(*args)
    except exception:
        return
    raise Violation('%r did not raise %s' % (function, exception.__name__))


def reference_counts(rng, env):
    """Each operation is repeated: no reference may be lost or left over."""
    shared = Shared()
    connection = ReturningConnection(FlakyView(shared))
    root = connection.get_root()
    klass = rng.choice([Returns, Returns, Persistent, classes.Slotted,
                        classes.Mixed])
    obj = klass()
    faulty = Faulty()
    value = Value()
    name = 'value-%d' % rng.getrandbits(40)
    if klass is classes.Slotted:
        name = 'a'
    special = rng.choice(['\udc80', 'x\0y', '_p_none', '__repr__', 'none'])
    other = Persistent()
    _setattribute(other, 'x', value)
    root['obj'] = obj
    root['faulty'] = faulty
    obj.a = 1
    connection.commit()
    unsaved = klass()
    view = connection.storage
    called = []

    def set_attribute():
        setattr(unsaved, name, value)
        delattr(unsaved, name)

    def get_attribute():
        obj._p_serial = 0
        getattr(obj, 'a')

    def get_twice():
        getattr(obj, 'a')
        getattr(obj, 'a')

    def get_missing():
        obj._p_serial = 0
        expect(AttributeError, getattr, obj, special + '!')

    def set_special():
        if klass is not classes.Slotted:
            setattr(unsaved, special if special != '__repr__' else 'r', value)
            delattr(unsaved, special if special != '__repr__' else 'r')

    def change():
        obj._p_set_status_saved()
        connection.changed.clear()
        obj.a = value
        obj.a = 1

    def ghost():
        if obj._p_is_unsaved():
            connection.changed.clear()
            obj._p_set_status_saved()
        obj._p_set_status_ghost()
        getattr(obj, 'a')

    def ghost_fails():
        if obj._p_is_unsaved():
            connection.changed.clear()
            obj._p_set_status_saved()
        obj._p_set_status_ghost()
        view.failing = 'error'
        expect(OSError, getattr, obj, 'a')
        expect(OSError, setattr, obj, 'a', value)
        expect(OSError, delattr, obj, 'a')
        view.failing = None
        getattr(obj, 'a')

    def access_fails():
        obj._p_serial = 0
        connection.mode = 1
        expect(ValueError, getattr, obj, 'a')
        connection.mode = 2
        getattr(obj, 'a')
        connection.mode = 0

    def functions():
        if klass is not classes.Slotted:
            _setattribute(unsaved, name, value)
            require(_getattribute(unsaved, name) is value, 'value')
            require(_hasattribute(unsaved, name) is True, 'there')
            _delattribute(unsaved, name)
            require(_hasattribute(unsaved, name) is False, 'not there')
            expect(AttributeError, _delattribute, unsaved, name)
            expect(AttributeError, _getattribute, unsaved, name)

    def functions_fail():
        expect(TypeError, _setattribute, obj, name)
        expect(TypeError, _setattribute, obj, 5, value)
        expect(TypeError, _getattribute, obj)
        expect(TypeError, _getattribute, obj, 5)
        expect(TypeError, _delattribute, obj, name, value)
        expect(TypeError, _hasattribute)
        expect(TypeError, _hasattribute, obj, 5)
        expect(TypeError, obj.__getattribute__, 5)
        expect(TypeError, call_if_persistent, obj)
        expect(LookupError, _getattribute, faulty, 'fails')
        expect(LookupError, _hasattribute, faulty, 'fails')
        expect(LookupError, call_if_persistent, lambda x: x, Elusive())

    def calls():
        result = fresh()
        require(call_if_persistent(lambda x: result, obj) is result, 'result')
        require(call_if_persistent(lambda x: result, value) is None, 'None')
        expect(ZeroDivisionError, call_if_persistent, lambda x: 1 // 0, obj)
        expect(TypeError, call_if_persistent, value, obj)

    def create():
        x = klass()
        x._p_connection = connection
        x._p_oid = b'12345678'
        x._p_serial = value
        del x

    def create_cycle():
        x = klass()
        x.a = x
        y = klass()
        y.a = x
        x.b = y

    def connections():
        x = ReturningConnection(shared.view())
        x.transaction_serial = value
        del x.transaction_serial
        shared.views.pop()

    def no_connection():
        x = klass()
        x.a = 1
        x._p_connection = connection
        del x._p_connection
        expect(AttributeError, getattr, x, 'a')
        x._p_connection = value
        expect(AttributeError, getattr, x, 'a')
        x._p_connection = hooks.Something(5)
        x._p_serial = 7
        getattr(x, 'a')
        x._p_connection = x
        expect(RecursionError, getattr, x, 'a')
        del x._p_serial
        x._p_connection = None
        getattr(x, 'a')
        del x._p_oid

    def members():
        x = klass()
        for n in ('_p_serial', '_p_oid', '_p_connection'):
            setattr(x, n, value)
            require(getattr(x, n) is value, n)
            delattr(x, n) if n == '_p_serial' else None
            setattr(x, n, None)
        x._p_status = 5
        x._p_status = 1
        expect(TypeError, setattr, x, '_p_status', value)

    operations = [v for v in list(locals().values())
                  if callable(v) and getattr(v, '__qualname__', '').startswith(
                      'reference_counts.<locals>')]
    rng.shuffle(operations)
    watched = dict(connection=connection, obj=obj, unsaved=unsaved,
                   value=value, name=name, root=root, klass=klass,
                   storage=view, faulty=faulty, special=special,
                   persistent_class=Persistent, value_class=Value)
    for operation in operations[:rng.randrange(3, 9)]:
        text = operation.__name__
        env.op(text, klass.__name__)
        env.count('repeated: ' + text)
        rounds = 200
        for _ in range(5):
            operation()
        # A leak shows in all of the attempts.
        for attempt in range(4):
            problem = measure(env, text, operation, rounds, watched)
            if problem is None:
                break
            env.count('measured again')
        else:
            raise Violation('%s: %s' % (text, problem))


def measure(env, text, operation, rounds, watched):
    """-> None or what is too much"""
    gc.collect()
    del RESULTS[:]
    before = dict((k, sys.getrefcount(v)) for k, v in watched.items())
    blocks = sys.getallocatedblocks()
    for _ in range(rounds):
        operation()
        del RESULTS[100:]
        del hooks.LOG[:]
    gc.collect()
    left = sum(1 for r in RESULTS if r() is not None)
    del RESULTS[:]
    grown = sys.getallocatedblocks() - blocks
    after = dict((k, sys.getrefcount(v)) for k, v in watched.items())
    if left > 1:
        return '%d results of methods are still there' % left
    for k in before:
        if abs(after[k] - before[k]) > rounds // 10:
            return '%d references to the %s after %d rounds, %d before' % (
                after[k], k, rounds, before[k])
        env.count('reference counts compared')
    if grown > rounds // 3:
        return '%d more blocks of memory after %d rounds' % (grown, rounds)


def deep_structures(rng, env):
    """Long chains are freed without exhausting the stack."""
    klass = rng.choice([Persistent, classes.Slotted, classes.Mixed,
                        classes.PersistentList, classes.PersistentDict,
                        'base'])
    count = rng.choice([1000, 50000, 200000])
    env.op('chain', getattr(klass, '__name__', klass), count)
    way = rng.randrange(3)
    last = None
    for i in range(count):
        if klass == 'base':
            x = PersistentBase()
            x._p_oid = last
        else:
            x = klass()
            if way == 0:
                x._p_oid = last
            elif klass is classes.PersistentList:
                x.append(last)
            elif klass is classes.PersistentDict:
                x['next'] = last
            elif way == 1:
                x.a = last
            else:
                x.a = [last]
        last = x
    first = None
    if klass != 'base':
        first = weakref.ref(x)
    if rng.random() < 0.3:
        gc.collect()
    if rng.random() < 0.3 and klass != 'base' and way != 0:
        # A cycle, freed by the collector.
        if klass is classes.PersistentList:
            x.append(x)
        elif klass is classes.PersistentDict:
            x['me'] = x
        else:
            x.b = x
        env.count('cycles')
    del x, last
    gc.collect()
    require(first is None or first() is None, 'the chain is still there')
    env.count('chains freed')
