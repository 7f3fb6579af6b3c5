"""C06: what is stored is what is loaded."""
import datetime
import decimal
import fractions
import io
import math
import os
import pickle
import struct
import zlib

import durus.serialize
import durus.utils
from durus.connection import Connection
from durus.persistent import PersistentObject, ComputedAttribute
from durus.storage import MemoryStorage

from vlib import classes, records
from vlib.case import Violation, require, equal, short
from vlib.storages import FILE_KINDS, open_storage

NODE_LIKE = [classes.Node, classes.Leaf, classes.Dict2, classes.PersistentDict]


def text(rng):
    alphabet = 'ab\n\0 \x78é漢\U0001f600\udc80'
    return ''.join(rng.choice(alphabet) for _ in range(rng.randrange(8)))


ATOMS = [
    lambda rng: None,
    lambda rng: rng.choice([True, False, Ellipsis, NotImplemented]),
    lambda rng: rng.randrange(-3, 300),
    lambda rng: rng.choice([-1, 1]) * rng.getrandbits(rng.choice(
        [8, 16, 31, 32, 33, 63, 64, 65, 300, 2100])),
    lambda rng: rng.choice([0.0, -0.0, 1e300, math.inf, -math.inf, math.nan,
                            rng.random(), 5e-324]),
    lambda rng: complex(rng.random(), -0.0),
    text, text,
    lambda rng: text(rng) * rng.choice([1, 100]),
    lambda rng: rng.randbytes(rng.choice([0, 1, 5, 300])),
    lambda rng: bytes([0x78, 0x9c]) + rng.randbytes(4),
    lambda rng: bytearray(rng.randbytes(rng.randrange(6))),
    lambda rng: zlib.compress(pickle.dumps({}, 2)),
    lambda rng: decimal.Decimal(rng.random()),
    lambda rng: fractions.Fraction(rng.randrange(9), 7),
    lambda rng: datetime.datetime(2000, 1, 1, 1, rng.randrange(60)),
    lambda rng: datetime.timedelta(rng.randrange(100), 3, 4),
    lambda rng: range(rng.randrange(10)),
    lambda rng: rng.choice([int, dict, classes.Node, classes.Plain, len,
                            os.path.join, datetime.datetime]),
    lambda rng: classes.IntSubclass(rng.randrange(9)),
    lambda rng: classes.StrSubclass(text(rng)),
]


class Maker(object):
    """Makes values; some parts of them are shared, some are recursive."""

    def __init__(self, rng, objects):
        self.rng = rng
        self.objects = objects # persistent ones
        self.hashables = [x for x in objects if type(x).__hash__]
        self.parts = []
        self.size = 0

    def atom(self):
        return self.rng.choice(ATOMS)(self.rng)

    def hashable(self, depth=2):
        rng = self.rng
        n = rng.random()
        if n < 0.15 and depth:
            return tuple(self.hashable(depth - 1)
                         for _ in range(rng.randrange(4)))
        if n < 0.2 and depth:
            return frozenset(self.hashable(depth - 1)
                             for _ in range(rng.randrange(3)))
        if n < 0.3 and self.hashables:
            return rng.choice(self.hashables)
        while True:
            x = self.atom()
            try:
                hash(x)
            except TypeError:
                continue
            if x == x: # nan
                return x

    def value(self, depth=4):
        rng = self.rng
        self.size += 1
        n = rng.random()
        if depth == 0 or n < 0.4 or self.size > 400:
            if self.objects and rng.random() < 0.3:
                return rng.choice(self.objects)
            return self.atom()
        if n < 0.5 and self.parts:
            return rng.choice(self.parts) # shared, perhaps recursive
        kind = rng.randrange(9)
        k = rng.choice([0, 1, 2, 2, 3, 5])
        if rng.random() < 0.01:
            k = 300
            depth = 1
        if kind == 0:
            result = []
        elif kind == 1:
            result = {}
        elif kind == 2:
            result = set()
        elif kind == 3:
            return tuple(self.value(depth - 1) for _ in range(k))
        elif kind == 4:
            return frozenset(self.hashable() for _ in range(k))
        elif kind == 5:
            result = classes.Plain()
        elif kind == 6:
            result = classes.ListSubclass()
        elif kind == 7:
            result = classes.DictSubclass()
        else:
            result = classes.PlainReduce(None)
        # Before it is filled: it may contain itself.
        if kind != 2 and (kind != 8):
            self.parts.append(result)
        for _ in range(k):
            if kind in (0, 6):
                result.append(self.value(depth - 1))
            elif kind in (1, 7):
                result[self.hashable()] = self.value(depth - 1)
            elif kind == 2:
                result.add(self.hashable())
            elif kind == 5:
                setattr(result, 'x%d' % rng.randrange(5),
                        self.value(depth - 1))
            else:
                result.b = self.value(depth - 1)
        if kind in (2, 8):
            self.parts.append(result)
        return result


class Compare(object):
    """
    Are two values the same?  Types, contents, and which parts are shared.
    Persistent objects are compared by class and oid; sharing is compared for
    mutable plain objects within the state of one persistent object.
    """
    def __init__(self, where):
        self.where = where
        self.there = {} # id of a -> b
        self.back = {}
        self.keep = []

    def fail(self, path, message):
        raise Violation('%s: %s: %s' % (self.where, path or 'state', message))

    def __call__(self, a, b, path=''):
        if isinstance(a, PersistentObject) or isinstance(b, PersistentObject):
            if type(a) is not type(b):
                self.fail(path, 'a %s became a %s' % (
                    type(a).__name__, type(b).__name__))
            if a._p_oid != b._p_oid:
                self.fail(path, 'refers to %r instead of %r' % (
                    b._p_oid, a._p_oid))
            return
        if type(a) is not type(b):
            self.fail(path, 'a %s became a %s: %s -> %s' % (
                type(a).__name__, type(b).__name__, short(a, 100),
                short(b, 100)))
        mutable = isinstance(a, (list, dict, set, bytearray, classes.Plain,
                                 classes.PlainReduce))
        if mutable:
            if id(a) in self.there:
                if self.there[id(a)] is not b:
                    self.fail(path, 'what was one object became two')
                return
            if id(b) in self.back:
                self.fail(path, 'two objects became one')
            self.there[id(a)] = b
            self.back[id(b)] = a
            self.keep.append((a, b))
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                self.fail(path, 'length %d became %d' % (len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self(x, y, '%s[%d]' % (path, i))
        elif isinstance(a, dict):
            self.mapping(a, b, path)
        elif isinstance(a, (set, frozenset)):
            self.unordered(a, b, path)
        elif isinstance(a, classes.Plain):
            self.mapping(vars(a), vars(b), path + '.')
        elif isinstance(a, classes.PlainReduce):
            self.mapping(vars(a), vars(b), path + '.')
        elif isinstance(a, float):
            if struct.pack('d', a) != struct.pack('d', b):
                self.fail(path, '%r became %r' % (a, b))
        elif isinstance(a, complex):
            if repr(a) != repr(b):
                self.fail(path, '%r became %r' % (a, b))
        elif a != b:
            self.fail(path, '%s became %s' % (short(a, 200), short(b, 200)))

    def key(self, x):
        if isinstance(x, PersistentObject):
            return 'P', type(x).__name__, x._p_oid
        if isinstance(x, (tuple, frozenset)):
            items = [self.key(y) for y in x]
            if isinstance(x, frozenset):
                items.sort(key=repr)
            return type(x).__name__, tuple(items)
        return type(x).__name__, repr(x)

    def unordered(self, a, b, path):
        x = sorted((self.key(e) for e in a), key=repr)
        y = sorted((self.key(e) for e in b), key=repr)
        if x != y:
            self.fail(path, 'members %s became %s' % (
                short(x, 300), short(y, 300)))

    def mapping(self, a, b, path):
        x = [self.key(k) for k in a]
        y = [self.key(k) for k in b]
        if x != y: # also the order
            self.fail(path, 'keys %s became %s' % (
                short(x, 300), short(y, 300)))
        for (k, v), (_, w) in zip(a.items(), b.items()):
            self(v, w, '%s[%s]' % (path, short(k, 30)))


SHAPES = [classes.Node, classes.Leaf, classes.Slotted, classes.SlottedChild,
          classes._Under, classes.__, classes.OneSlot, classes.Mixed,
          classes.MixedSlots, classes.Empty, classes.NoneState,
          classes.TupleState, classes.PersistentDict, classes.PersistentList,
          classes.PersistentSet, classes.Dict2, classes.Computed,
          classes.BTree]


def names_of(obj):
    """The attributes that the state of an object of this class can have, by
    the rules of the language."""
    klass = type(obj)
    result = []
    if klass in (classes.Slotted, classes.SlottedChild, classes.Mixed,
                 classes.MixedSlots):
        result += ['a', 'b', '_Slotted__c']
    if klass in (classes.SlottedChild, classes.Mixed, classes.MixedSlots):
        result += ['d', '_SlottedChild__c']
    if klass is classes.MixedSlots:
        result += ['e', '_MixedSlots__c']
    if klass is classes._Under:
        result += ['_Under__v', '_w']
    if klass is classes.__:
        result += ['__v', 'w']
    if klass is classes.OneSlot:
        result += ['single']
    if klass in (classes.Node, classes.Leaf, classes.Mixed,
                 classes.MixedSlots):
        result += ['x', 'y', '_private', '__strange__', 'é', '_Node__z',
                   'label']
    return result


def fill(rng, obj, make):
    """Give it a state.  -> a way to look at it: function(obj) -> dict"""
    klass = type(obj)
    if klass in (classes.Empty, classes.Computed):
        return
    if klass is classes.NoneState:
        obj.a = make.value()
        return
    if klass is classes.TupleState:
        obj.items = [make.value() for _ in range(rng.randrange(4))]
        return
    if klass in (classes.PersistentDict, classes.Dict2):
        for _ in range(rng.randrange(6)):
            obj[make.hashable()] = make.value()
    elif klass is classes.PersistentList:
        for _ in range(rng.randrange(6)):
            obj.append(make.value())
    elif klass is classes.PersistentSet:
        for _ in range(rng.randrange(6)):
            obj.add(make.hashable())
    elif klass is classes.BTree:
        for _ in range(rng.choice([0, 3, 20])):
            obj[rng.randrange(1000)] = make.value()
    else:
        for name in names_of(obj):
            n = rng.random()
            if n < 0.6:
                setattr(obj, name, make.value())
            elif n < 0.65 and hasattr(obj, name) and name != 'label':
                delattr(obj, name)


def view(obj):
    """The state as a program sees it."""
    klass = type(obj)
    if klass in (classes.Empty, classes.Computed):
        return {}
    if klass is classes.TupleState:
        return {'items': obj.items}
    if klass is classes.NoneState:
        # Nothing but the class is stored.
        return {}
    if klass in (classes.PersistentDict, classes.Dict2):
        return {'data': dict(obj.items())}
    if klass is classes.PersistentList:
        return {'data': list(obj)}
    if klass is classes.PersistentSet:
        return {'data': set(obj)}
    if klass is classes.BTree:
        # Each node of the tree is an object of its own: values are shared
        # only within one item.
        return {'data%d' % i: item for i, item in enumerate(obj.items())}
    result = {}
    absent = object()
    for name in names_of(obj):
        value = getattr(obj, name, absent)
        if value is not absent:
            result[name] = value
    return result


def states(rng, env):
    kind = rng.choice(FILE_KINDS + ['MemoryStorage'] * 3)
    if kind == 'MemoryStorage':
        storage = MemoryStorage()
    else:
        storage = open_storage(kind, env.fresh('data'))
    env.cleanup(storage.close)
    was = durus.serialize.WRITE_COMPRESSED_STATE_PICKLES
    def restore():
        durus.serialize.WRITE_COMPRESSED_STATE_PICKLES = was
    env.cleanup(restore)
    connection = Connection(storage)
    root = connection.get_root()
    objects = []
    for i in range(rng.choice([1, 2, 5, 12])):
        klass = rng.choice(SHAPES)
        obj = klass()
        objects.append(obj)
        root[i] = obj
        env.count('objects of class ' + klass.__name__)
    env.op(kind, [type(x).__name__ for x in objects])
    texts = {}
    for step in range(rng.choice([1, 1, 2, 3])):
        for obj in objects:
            if step == 0 or rng.random() < 0.5:
                maker = Maker(rng, objects)
                fill(rng, obj, maker)
                if rng.random() < 0.01 and hasattr(obj, 'x'):
                    obj.x = rng.randbytes(rng.choice([30000, 200000]))
                    env.count('large incompressible states')
                elif rng.random() < 0.003 and hasattr(obj, 'x'):
                    n = rng.choice([70000, 1100000, 3000000])
                    if rng.random() < 0.1:
                        n *= 8
                    obj.x = rng.choice([b'x', b'abcdefgh']) * (n // 4)
                    env.count('large states')
                env.count('states')
        compressed = rng.random() < 0.5
        durus.serialize.WRITE_COMPRESSED_STATE_PICKLES = compressed
        env.count('commits with compression' if compressed else
                  'commits without compression')
        connection.commit()
        env.op('commit', compressed)
        for obj in objects:
            env.op(short([(k, v) for k, v in view(obj).items()
                          if not isinstance(v, (set, frozenset))], 120))
        again = Connection(storage)
        for i, obj in enumerate(objects):
            where = 'state of a %s (%s)' % (type(obj).__name__, kind)
            other = again.get_root()[i]
            require(type(other) is type(obj), '%s: it became a %s', where,
                    type(other).__name__)
            require(other is not obj, 'harness')
            if rng.random() < 0.3:
                other._p_load_state()
            same = Compare(where)
            mine, theirs = view(obj), view(other)
            equal(sorted(theirs), sorted(mine), where + ': attributes')
            for name in mine:
                if type(obj) is classes.BTree:
                    same = Compare(where)
                same(mine[name], theirs[name], name)
            if type(obj) is classes.NoneState:
                require(not hasattr(other, 'a'), '%s: not None', where)
            env.count('states compared')
            # A record is what it should be, and the raw pickle, too.
            record = storage.load(obj._p_oid)
            oid, klass, state, found, refs = records.parse(record)
            require(klass is type(obj) and oid == obj._p_oid,
                    'record of another object')
            reader = durus.serialize.ObjectReader(again)
            data = durus.serialize.unpack_record(record)[1]
            raw = reader.get_state_pickle(data)
            file = io.BytesIO(data)
            pickle.load(file)
            rest = data[file.tell():]
            if rest[:1] == b'\x78':
                rest = zlib.decompress(rest)
                env.count('compressed records')
            else:
                env.count('uncompressed records')
            equal(raw, rest, '%s: get_state_pickle()', where)
        # Ghosts and other ways to load.
        if rng.random() < 0.5:
            connection.commit()
            for obj in objects:
                before = view(obj)
                if obj._p_is_saved() and type(obj) is not classes.Computed:
                    obj._p_set_status_ghost()
                    require(obj._p_is_ghost(), 'not a ghost')
                    same = Compare('state of a %s after it was a ghost' %
                                   type(obj).__name__)
                    after = view(obj)
                    equal(sorted(before), sorted(after), 'attributes')
                    for name in before:
                        if type(obj) is classes.BTree:
                            same = Compare(where)
                        same(before[name], after[name], name)
                    env.count('ghosts loaded')


def formats(rng, env):
    """Records, lists of oids, integers."""
    s = durus.serialize
    u = durus.utils
    for _ in range(40):
        oid = rng.randbytes(8)
        data = rng.randbytes(rng.choice([0, 1, 7, 8, 9, 100]))
        refs = [rng.randbytes(8) for _ in range(rng.choice([0, 1, 2, 9, 500]))]
        if rng.random() < 0.02:
            data = rng.randbytes(1) * (2**24 + 3)
        packed = b''.join(refs)
        record = s.pack_record(oid, data, packed)
        require(record == oid + struct.pack('>L', len(data)) + data + packed,
                'pack_record(%s, ...)', short(oid))
        equal(tuple(s.unpack_record(record)), (oid, data, packed),
              'unpack_record()')
        equal(list(s.split_oids(packed)), refs, 'split_oids()')
        n = rng.getrandbits(rng.choice([1, 8, 31, 32, 33, 63, 64]))
        equal(u.int8_to_str(n), struct.pack('>Q', n), 'int8_to_str(%d)', n)
        equal(u.str_to_int8(struct.pack('>Q', n)), n, 'str_to_int8()')
        m = n % 2**32
        equal(u.int4_to_str(m), struct.pack('>L', m), 'int4_to_str(%d)', m)
        equal(u.str_to_int4(struct.pack('>L', m)), m, 'str_to_int4()')
        f = io.BytesIO()
        u.write_int8(f, n)
        u.write_int4(f, m)
        u.write_int8_str(f, data)
        u.write_int4_str(f, packed)
        expected = (struct.pack('>Q', n) + struct.pack('>L', m) +
                    struct.pack('>Q', len(data)) + data +
                    struct.pack('>L', len(packed)) + packed)
        require(f.getvalue() == expected, 'what is written')
        f.seek(0)
        equal((u.read_int8(f), u.read_int4(f)), (n, m), 'what is read')
        require(u.read_int8_str(f) == data, 'read_int8_str()')
        require(u.read_int4_str(f) == packed, 'read_int4_str()')
        # Too short.
        cut = rng.randrange(len(expected))
        f = io.BytesIO(expected[:cut])
        try:
            u.read_int8(f), u.read_int4(f), u.read_int8_str(f)
            u.read_int4_str(f)
        except u.ShortRead:
            env.count('short reads')
        else:
            raise Violation('%d of %d bytes were read without an error' % (
                cut, len(expected)))
        env.op(n, m, len(data), len(refs))
        env.count('records packed')
