"""Reading storage records without durus' reader: an independent oracle."""
import io
import pickle
import struct
import zlib

from vlib.case import Violation, require, equal


class Ref(object):
    """A persistent reference found in a pickle."""
    def __init__(self, oid, klass):
        self.oid = oid
        self.klass = klass

    def __repr__(self):
        return '<ref %r>' % self.oid


def parse(record):
    """record -> (oid, class, state, [Ref], set of stored oids)"""
    oid = record[:8]
    n, = struct.unpack('>L', record[8:12])
    data = record[12:12 + n]
    require(len(data) == n, 'a record is too short: %r', record[:40])
    refdata = record[12 + n:]
    require(len(refdata) % 8 == 0, 'reference data of %d bytes', len(refdata))
    stored = [refdata[i:i + 8] for i in range(0, len(refdata), 8)]
    found = []
    file = io.BytesIO(data)
    unpickler = pickle.Unpickler(file)
    klass = unpickler.load()
    rest = data[file.tell():]
    if rest[:1] == b'\x78':
        rest = zlib.decompress(rest)
    def persistent_load(pid):
        ref = Ref(*pid)
        found.append(ref)
        return ref
    # The class pickle and the state pickle share a memo.
    class_part = data[:file.tell()]
    file = io.BytesIO(class_part + rest)
    unpickler = pickle.Unpickler(file)
    unpickler.persistent_load = persistent_load
    unpickler.load()
    state = unpickler.load()
    require(file.read() == b'', 'something after the state pickle')
    return oid, klass, state, found, stored


def scan(storage, shared=None, root=b'\0' * 8):
    """
    Read everything that is reachable; no reference may be dangling, stored
    references are exactly those of the state.  -> {oid: (class, refs)}
    """
    load = storage.load if shared is None else shared.records.__getitem__
    result = {}
    todo = [(root, None)]
    while todo:
        oid, origin = todo.pop()
        if oid in result:
            continue
        try:
            record = load(oid)
        except KeyError:
            raise Violation('%r refers to %r, which is not stored' % (
                origin, oid))
        oid2, klass, state, found, stored = parse(record)
        equal(oid2, oid, 'oid in a record')
        refs = set(ref.oid for ref in found) - set([oid])
        equal(sorted(stored), sorted(refs), 'stored references of %r', oid)
        result[oid] = klass, refs
        for ref in found:
            todo.append((ref.oid, oid))
    return result
