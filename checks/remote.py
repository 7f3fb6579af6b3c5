"""K06: a ClientStorage against a dictionary with sets of invalid oids."""
import io
import logging
import random

from durus.client_storage import ClientStorage
from durus.error import ConflictError, DurusKeyError, ReadConflictError
from durus.error import WriteConflictError
from durus.logger import logger
from durus.serialize import pack_record

from vlib.case import Violation, equal, require, short
from vlib.server import PATIENCE, Server, new_address
from vlib.storages import FILE_KINDS

ROOT = b'\0' * 8


class SplitSocket(object):
    """Transfers what it is given in pieces."""

    def __init__(self, s, rng, largest):
        self.s = s
        self.rng = rng
        self.largest = largest
        self.pieces = 3000

    def piece(self, n):
        if n > 1:
            self.pieces -= 1
        if n <= 1 or self.pieces < 0 or self.rng.random() < 0.3:
            return n
        return self.rng.randrange(1, min(n, self.largest) + 1)

    def recv(self, n, *args):
        return self.s.recv(self.piece(n), *args)

    def send(self, data, *args):
        return self.s.send(data[:self.piece(len(data))], *args)

    def sendall(self, data, *args):
        data = bytes(data)
        while data:
            data = data[self.send(data, *args):]

    def __getattr__(self, name):
        return getattr(self.s, name)


def small_buffers(address, rng):
    """The kernel takes and gives less at a time."""
    import socket
    set_connection_options = address.set_connection_options
    get_connected_socket = address.get_connected_socket
    size = 2048 if address.get_address_family() == socket.AF_UNIX else 20000
    def server_side(s):
        s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, size)
        set_connection_options(s)
    def client_side():
        s = get_connected_socket()
        if s is not None:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, size)
        return s
    address.set_connection_options = server_side
    address.get_connected_socket = client_side


def splitting(address, rng):
    """Some of the clients' sockets transfer pieces."""
    get_connected_socket = address.get_connected_socket
    def connected():
        s = get_connected_socket()
        if s is not None and rng.random() < 0.7:
            s = SplitSocket(s, random.Random(rng.random()),
                            rng.choice([1, 3, 8, 100, 5000]))
        return s
    address.get_connected_socket = connected


def verbosity(rng, env):
    """What the server logs makes no difference."""
    level, handlers = logger.level, logger.handlers[:]
    propagate = logger.propagate
    def restore():
        logging.disable(logging.CRITICAL)
        logger.setLevel(level)
        logger.handlers[:] = handlers
        logger.propagate = propagate
    env.cleanup(restore)
    logging.disable(logging.NOTSET)
    logger.handlers[:] = [logging.StreamHandler(io.StringIO())]
    logger.propagate = False
    logger.setLevel(rng.choice([1, 4, 5, 8, 10, 15, 20, 30]))


class Peer(object):
    """A client and what the model knows about it."""

    def __init__(self, model, number):
        self.model = model
        self.number = number
        self.connect()

    def connect(self):
        self.storage = self.model.server.client()
        self.invalid = set()
        # What a pack removed before it connected.
        self.maybe = set(self.model.unsynced)
        self.pending = {}
        self.fresh = [] # oids of this transaction
        self.reserved = set() # oids it has got and not used

    def close(self):
        self.storage.close()
        self.reserved = set()


class Model(object):
    """What the storage behind the server holds."""

    def __init__(self, rng, env, server):
        self.rng = rng
        self.env = env
        self.server = server
        self.records = {}
        self.refs = {}
        self.peers = []
        self.unsynced = set()
        self.injected = None

    def peer(self):
        x = Peer(self, len(self.peers))
        self.peers.append(x)
        return x

    def reachable(self, start=ROOT):
        seen = set()
        todo = [start]
        while todo:
            oid = todo.pop()
            if oid not in seen:
                seen.add(oid)
                todo.extend(self.refs[oid])
        return seen

    def has_committed(self, author, pending):
        for oid, (record, refs) in pending.items():
            self.records[oid] = record
            self.refs[oid] = refs
            if author is not None:
                author.reserved.discard(oid)
        for peer in self.peers:
            if peer is not author:
                peer.invalid.update(pending)

    def has_packed(self):
        if self.server.kind == 'MemoryStorage' or ROOT not in self.records:
            return set()
        removed = set(self.records) - self.reachable()
        for oid in removed:
            del self.records[oid]
            del self.refs[oid]
        for peer in self.peers:
            peer.invalid.update(removed)
        self.unsynced |= removed
        return removed

    def is_synced(self, peer, oids, what):
        oids = list(oids)
        equal(len(oids), len(set(oids)), 'client %s is given oids repeatedly '
              'at %s', peer.number, what)
        equal(sorted(set(oids) - (peer.maybe - peer.invalid)),
              sorted(peer.invalid), 'invalid oids of client %s at %s',
              peer.number, what)
        self.env.count('invalid oids compared', len(oids))
        peer.invalid.clear()
        peer.maybe.clear()
        self.unsynced.clear()

    def expected_load(self, peer, oid):
        if oid in peer.invalid:
            return 'invalid'
        if oid in self.records:
            return self.records[oid]
        if oid in peer.maybe:
            return 'missing or invalid'
        return 'missing'

    # operations

    def load(self, peer, oid):
        expected = self.expected_load(peer, oid)
        what = 'client %s loads %r' % (peer.number, oid)
        compare(self.env, what, expected,
                lambda: peer.storage.load(oid), [oid])

    def bulk_load(self, peer, oids, stop=None):
        what = 'client %s loads %s' % (peer.number, short(oids, 300))
        expected = [self.expected_load(peer, oid) for oid in oids]
        errors = [(x, oid) for x, oid in zip(expected, oids)
                  if not isinstance(x, bytes)]
        self.env.count('oids of bulk loads', len(oids))
        def load():
            result = []
            generator = peer.storage.bulk_load(oids)
            for record in generator:
                result.append(record)
                if stop is not None and len(result) == stop:
                    generator.close()
                    break
            return result
        if not errors:
            compare(self.env, what, expected[:stop], load, None)
            return
        # One of the errors, and only records before it.
        try:
            result = load()
        except ReadConflictError as e:
            self.env.count('bulk loads with invalid oids')
            allowed = set(oid for x, oid in errors if x.endswith('invalid'))
            require(set(e.oids) and set(e.oids) <= allowed,
                    '%s: invalid oids are %s, not %s', what, sorted(allowed),
                    e.oids)
        except KeyError as e:
            self.env.count('bulk loads with missing oids')
            allowed = set(oid for x, oid in errors if x.startswith('missing'))
            require(isinstance(e, DurusKeyError) and e.args[0] in allowed,
                    '%s: %r, but missing are %s', what, e, sorted(allowed))
        else:
            first = expected.index(errors[0][0])
            require(stop is not None and len(result) == stop <= first,
                    '%s gives %s records although there are errors: %s', what,
                    len(result), short(errors))

    def new_oid(self, peer):
        oid = peer.storage.new_oid()
        require(isinstance(oid, bytes) and len(oid) == 8, 'new oid %r', oid)
        require(oid not in self.records, 'a new oid is in use: %r', oid)
        require(oid not in peer.fresh,
                'a new oid was given out before: %r', oid)
        for x in self.peers:
            require(x is peer or oid not in x.reserved,
                    'a new oid is reserved by client %s: %r', x.number, oid)
            require(oid not in x.invalid,
                    'a new oid is still known to client %s: %r', x.number, oid)
        peer.fresh.append(oid)
        peer.reserved.add(oid)
        self.env.count('new oids')
        return oid

    def begin(self, peer):
        peer.storage.begin()
        peer.pending = {}
        peer.fresh = []

    def store(self, peer, oid, data, refs):
        record = pack_record(oid, data, b''.join(refs))
        peer.storage.store(oid, record)
        peer.pending[oid] = record, refs

    def end(self, peer, refuse):
        """-> True if it has been committed"""
        given = []
        def handler(oids):
            given.append(list(oids))
            if refuse:
                raise WriteConflictError(list(oids))
        pending = dict(peer.pending)
        try:
            peer.storage.end(handler)
        except ConflictError as e:
            if given and refuse:
                self.env.count('commits given up by the client')
            else:
                require(self.injected == 'end',
                        'client %s: unexpected %r', peer.number, e)
                self.env.count('conflicts raised by the storage')
            committed = False
        else:
            require(not (given and refuse), 'a commit went on after '
                    'handle_invalidations had raised')
            require(self.injected != 'end' or not pending,
                    'the storage had a conflict, the client no error')
            committed = True
        require(len(given) <= 1, 'handle_invalidations is called repeatedly')
        require(given != [[]], 'handle_invalidations is called for no oids')
        self.is_synced(peer, given[0] if given else [], 'its commit')
        if not committed and given and refuse:
            peer.reserved -= set(peer.fresh)
        peer.pending = {}
        peer.fresh = []
        if committed:
            self.has_committed(peer, pending)
            self.env.count('commits' if pending else 'empty commits')
        return committed

    def sync(self, peer):
        self.is_synced(peer, peer.storage.sync(), 'sync()')

    def pack(self, peer):
        result = peer.storage.pack()
        require(result is None, 'pack() gives %r', result)
        self.server.finish_pack()
        self.env.count('records removed by packs', len(self.has_packed()))

    def iterate(self, peer, start, batch_size):
        expected = {}
        error = None
        todo = [start]
        seen = set()
        while todo:
            oid = todo.pop()
            if oid in seen:
                continue
            seen.add(oid)
            x = self.expected_load(peer, oid)
            if not isinstance(x, bytes):
                error = x
            else:
                expected[oid] = x
                todo.extend(self.refs[oid])
        result = {}
        try:
            for oid, record in peer.storage.gen_oid_record(
                start_oid=start, batch_size=batch_size):
                require(oid not in result, 'an iteration repeats %r', oid)
                result[oid] = record
        except (ReadConflictError, KeyError) as e:
            require(error, 'an iteration ends with %r', e)
            self.env.count('iterations that fail')
        else:
            require(error is None,
                    'an iteration does not meet what is %s', error)
            equal(result, expected, 'records of an iteration from %r', start)
            self.env.count('iterations')

    def verify(self, peer):
        self.sync(peer)
        for oid in sorted(self.records):
            self.load(peer, oid)


def compare(env, what, expected, call, oids):
    try:
        result = call()
    except ReadConflictError as e:
        require(expected in ('invalid', 'missing or invalid'), '%s: %r', what, e)
        equal(list(e.oids), oids, '%s: oids of the conflict', what)
        env.count('loads of invalid oids')
    except KeyError as e:
        require(isinstance(e, DurusKeyError) and
                expected in ('missing', 'missing or invalid'),
                '%s: %r', what, e)
        equal(e.args[0], oids[0], '%s: missing oid', what)
        env.count('loads of missing oids')
    else:
        require(not isinstance(expected, str),
                '%s: there is a result for what is %s', what, expected)
        if result != expected:
            raise Violation('%s: another result than what is stored\n'
                            '  observed: %s\n  expected: %s' % (
                                what, short(result), short(expected)))
        env.count('records compared')


def some_data(rng, env, big):
    p = rng.random()
    if p < 0.1:
        n = 0
    elif p < 0.8:
        n = rng.randrange(1, 60)
    elif p < 0.97 or not big:
        n = rng.choice([100, 255, 256, 1000, 4096, 20000])
    else:
        n = rng.choice([65535, 65536, 300000, 1000001, 3000000])
        if (rng.random() < (0.02 if env.tier == 'thorough' else 0.003) and
            not env.counts['huge records']):
            n = 18000000
            env.count('huge records')
        if env.counts['bytes of large records'] > 5000000:
            n = 65536
        env.count('large records')
        env.count('bytes of large records', n)
    data = rng.randbytes(min(n, 5000))
    while len(data) < n:
        data += data[:n - len(data)]
    if rng.random() < 0.2:
        data = b'\n' * rng.randrange(3) + data.replace(b'\x80', b'\n')
    return data


def missing_oid(rng, model):
    while True:
        oid = rng.choice([
            rng.randrange(256), rng.randrange(100000), 2 ** 32,
            2 ** 62]).to_bytes(8, 'big')
        if oid not in model.records:
            return oid


def transaction(rng, env, model, peer, big):
    """Store something, and perhaps commit."""
    model.begin(peer)
    live = sorted(model.reachable()) if ROOT in model.records else []
    new = []
    for _ in range(rng.choice([0, 1, 1, 2, 5, 20, 40])):
        new.append(model.new_oid(peer))
    known = live + new
    def store(oid, refs):
        data = some_data(rng, env, big)
        env.op(peer.number, 'store', oid.hex(), len(data), len(refs))
        model.store(peer, oid, data, refs)
    for oid in new:
        if oid not in peer.pending and oid != ROOT:
            store(oid, [rng.choice(known) for _ in range(rng.randrange(4))])
    others = [oid for oid in live if oid != ROOT and oid not in peer.pending]
    for oid in rng.sample(others, min(len(others), rng.choice([0, 1, 3]))):
        store(oid, [rng.choice(known) for _ in range(rng.randrange(3))])
    if (new or rng.random() < 0.3) and ROOT not in peer.pending:
        store(ROOT, [oid for oid in known if oid in new or
                     rng.random() < 0.7][:60])


def remote(rng, env):
    """Random requests of one to three clients."""
    kind = rng.choice(['MemoryStorage'] + FILE_KINDS)
    address = new_address(rng, env)
    big = rng.random() < 0.15
    env.op(kind, type(address).__name__, big)
    if rng.random() < 0.3:
        small_buffers(address, rng)
        env.count('small buffers')
    splitting(address, random.Random(rng.random()))
    verbosity(rng, env)
    model = Model(rng, env, None)
    def wrap(storage):
        end = storage.end
        load = storage.load
        def failing_end(*args, **kwargs):
            if model.injected == 'end':
                # As a ClientStorage does.
                storage.begin()
                raise WriteConflictError([])
            return end(*args, **kwargs)
        def failing_load(oid):
            if model.injected == oid:
                raise ReadConflictError([oid])
            return load(oid)
        storage.end = failing_end
        storage.load = failing_load
        return storage
    server = Server(env, kind, env.fresh('db'), address, wrap=wrap)
    model.server = server
    for _ in range(rng.choice([1, 2, 2, 3])):
        model.peer()
    first = model.peers[0]
    oid = model.new_oid(first)
    equal(oid, ROOT, 'the first oid')
    model.begin(first)
    model.store(first, ROOT, b'', [])
    require(model.end(first, False), 'conflict')
    for _ in range(rng.choice([20, 60, 150])):
        server.check()
        peer = rng.choice(model.peers)
        p = rng.random()
        if p < 0.25:
            oids = sorted(model.records) + sorted(peer.invalid)
            oid = (rng.choice(oids) if rng.random() < 0.8 else
                   missing_oid(rng, model))
            env.op(peer.number, 'load', oid.hex())
            if rng.random() < 0.05:
                model.injected = oid
                expected = model.expected_load(peer, oid)
                compare(env, 'load', 'invalid', lambda: peer.storage.load(oid),
                        [oid])
                model.injected = None
            else:
                model.load(peer, oid)
        elif p < 0.4:
            oids = sorted(model.records)
            oids = [rng.choice(oids) for _ in range(
                rng.choice([0, 1, 2, 10, 100]))]
            if rng.random() < 0.2:
                oids = oids * rng.choice([2, 50])
                oids = oids[:5000]
            if rng.random() < 0.6:
                oids = [oid for oid in oids if oid not in peer.invalid]
            for _ in range(rng.choice([0, 0, 0, 1, 3])):
                oids.insert(rng.randrange(len(oids) + 1),
                            missing_oid(rng, model))
            env.op(peer.number, 'bulk_load', len(oids))
            size = sum(len(model.records.get(oid, b'')) for oid in oids)
            if size > 3000000:
                oids = oids[:len(oids) * 3000000 // size]
            if rng.random() < 0.5:
                oids = tuple(oids)
            model.bulk_load(peer, oids,
                            rng.choice([None, None, None, 1, 3]))
        elif p < 0.75:
            transaction(rng, env, model, peer, big)
            if rng.random() < 0.8:
                refuse = rng.random() < 0.3
                if rng.random() < 0.08:
                    model.injected = 'end'
                env.op(peer.number, 'end', refuse, model.injected)
                # The root always refers to what is there.
                if peer.invalid and not refuse:
                    # Otherwise an update of another client would be lost.
                    model.sync(peer)
                    live = model.reachable()
                    keep = live | set(peer.pending)
                    if not all(set(refs) <= keep for record, refs in
                               peer.pending.values()):
                        model.begin(peer)
                model.end(peer, refuse)
                model.injected = None
        elif p < 0.85:
            env.op(peer.number, 'sync')
            model.sync(peer)
        elif p < 0.9:
            start = rng.choice(sorted(model.reachable()))
            size = rng.choice([1, 2, 100, 10000])
            env.op(peer.number, 'iterate', start.hex(), size)
            model.iterate(peer, start, size)
        elif p < 0.93:
            env.op(peer.number, 'pack')
            model.pack(peer)
            for x in model.peers:
                # A program must not store references to what was removed.
                x.pending = {}
                model.begin(x)
        elif p < 0.96:
            env.op(peer.number, 'reconnect')
            peer.close()
            peer.connect()
        elif p < 0.98:
            env.op(peer.number, 'new oid')
            model.new_oid(peer)
        else:
            env.op('restart')
            for x in model.peers:
                x.close()
            server.restart()
            model.unsynced.clear()
            for x in model.peers:
                x.connect()
                model.verify(x)
    for peer in model.peers:
        model.verify(peer)
        peer.close()
    server.stop()
