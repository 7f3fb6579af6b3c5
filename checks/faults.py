"""K05: clients that disappear, stall or send something malformed."""
import os
import random
import socket
import struct
import time

import durus.storage_server
from durus.error import ReadConflictError
from durus.serialize import pack_record

from vlib.case import equal, require, short
from vlib.server import PATIENCE, Server, new_address
from vlib.storages import FILE_KINDS
from checks.remote import Model, Peer, ROOT, missing_oid, some_data
from checks.remote import small_buffers, verbosity

STALL = 2.5


class Cut(Exception):
    """This client is no more."""


def give_up(s, way):
    """End a connection in one of the ways in which a client may fail."""
    try:
        if way == 'reset':
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                         struct.pack('ii', 1, 0))
        elif way == 'half':
            s.shutdown(socket.SHUT_WR)
            s.settimeout(PATIENCE)
            while s.recv(100000):
                pass
        elif way == 'deaf':
            s.shutdown(socket.SHUT_RD)
    except OSError:
        pass
    if way not in ('stall', 'deaf'):
        s.close()


class CutSocket(object):
    """A socket that fails after a number of bytes."""

    def __init__(self, s):
        self.s = s
        self.sent = 0
        self.received = 0
        self.limit = None
        self.garbage = b''

    def arm(self, direction, limit, way, garbage):
        self.sent = self.received = 0
        self.direction = direction
        self.limit = limit
        self.way = way
        self.garbage = garbage

    def fail(self):
        if self.garbage:
            try:
                self.s.sendall(self.garbage)
            except OSError:
                pass
        give_up(self.s, self.way)
        raise Cut

    def send(self, data):
        if self.limit is not None and self.direction == 'sent':
            left = self.limit - self.sent
            if left < len(data):
                data = bytes(data[:left])
                while data:
                    n = self.s.send(data)
                    self.sent += n
                    data = data[n:]
                self.fail()
        n = self.s.send(data)
        self.sent += n
        return n

    def sendall(self, data):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    def recv(self, n):
        if self.limit is not None and self.direction == 'received':
            left = self.limit - self.received
            if left <= 0:
                self.fail()
            n = min(n, left)
        data = self.s.recv(n)
        self.received += len(data)
        return data

    def __getattr__(self, name):
        return getattr(self.s, name)


class Faults(object):

    def __init__(self, rng, env):
        self.rng = rng
        self.env = env
        kind = rng.choice(['MemoryStorage'] + FILE_KINDS)
        address = new_address(rng, env)
        env.op(kind, type(address).__name__)
        self.tcp = address.get_address_family() != socket.AF_UNIX
        if rng.random() < 0.2:
            small_buffers(address, rng)
        verbosity(rng, env)
        if hasattr(durus.storage_server, 'TIMEOUT'):
            durus.storage_server.TIMEOUT = STALL
        server = Server(env, kind, env.fresh('db'), address)
        self.server = server
        self.model = Model(rng, env, server)
        self.model.server = server
        self.sockets = []
        self.stalls = 0
        self.serial = 0
        for _ in range(rng.choice([1, 2])):
            self.model.peer()
        self.honest = list(self.model.peers)
        first = self.honest[0]
        self.model.new_oid(first)
        self.model.begin(first)
        self.model.store(first, ROOT, b'', [])
        self.model.end(first, False)

    def connected(self):
        """-> a ClientStorage whose socket can be made to fail"""
        address = self.server.address
        get_connected_socket = address.get_connected_socket
        def wrapped():
            s = get_connected_socket()
            return s if s is None else CutSocket(s)
        address.get_connected_socket = wrapped
        try:
            return Peer(self.model, 'bad')
        finally:
            address.get_connected_socket = get_connected_socket

    def settle(self, requests=1):
        """Until the server must have seen everything that was sent."""
        if self.tcp:
            time.sleep(0.002)
        for _ in range(requests + 3):
            for peer in self.honest:
                try:
                    peer.storage.load(ROOT)
                except ReadConflictError:
                    pass
        self.server.check()

    def way(self):
        ways = ['close', 'close', 'reset', 'half']
        if self.stalls < 1:
            ways += ['stall', 'deaf']
        way = self.rng.choice(ways)
        self.stalls += way in ('stall', 'deaf')
        self.env.count('clients that end with ' + way)
        return way

    def garbage(self):
        """Anything but a request to quit."""
        n = self.rng.choice([1, 1, 2, 5, 20, 300])
        return self.rng.randbytes(n).replace(b'Q', b'?')

    def data(self):
        self.serial += 1
        return b'%d ' % self.serial + some_data(self.rng, self.env, False)

    # honest work

    def fill(self, peer, n=None):
        """-> what a transaction is going to store"""
        rng = self.rng
        model = self.model
        model.begin(peer)
        live = sorted(model.reachable())
        new = [model.new_oid(peer) for _ in range(
            rng.choice([0, 1, 2, 5]) if n is None else n)]
        for oid in new:
            model.store(peer, oid, self.data(),
                        rng.sample(live + new, min(2, len(live))))
        others = [oid for oid in live if oid != ROOT]
        for oid in rng.sample(others, min(len(others), rng.choice([0, 1, 3]))):
            model.store(peer, oid, self.data(),
                        rng.sample(live, min(2, len(live))))
        refs = [oid for oid in live + new
                if oid in new or rng.random() < 0.9]
        model.store(peer, ROOT, self.data(), refs[-60:])

    def work(self):
        rng = self.rng
        model = self.model
        peer = rng.choice(self.honest)
        p = rng.random()
        if p < 0.4:
            model.sync(peer)
            self.fill(peer)
            self.env.op(peer.number, 'commit', len(peer.pending))
            model.end(peer, False)
        elif p < 0.5:
            self.env.op(peer.number, 'sync')
            model.sync(peer)
        elif p < 0.6:
            self.env.op(peer.number, 'new oid')
            model.new_oid(peer)
        elif p < 0.7:
            self.env.op(peer.number, 'pack')
            model.pack(peer)
        elif p < 0.75:
            self.env.op(peer.number, 'reconnect')
            peer.close()
            peer.connect()
        else:
            self.env.op(peer.number, 'load')
            for oid in rng.sample(sorted(model.records),
                                  min(3, len(model.records))):
                model.load(peer, oid)

    # clients that fail

    def interrupted(self):
        """A dialog that is cut at some byte."""
        rng = self.rng
        model = self.model
        bad = self.connected()
        model.peers.append(bad)
        s = bad.storage.s
        packs = self.server.packs_started
        way = self.way()
        complete = True
        pending = {}
        what = rng.choice(['commit', 'commit', 'commit', 'load', 'bulk_load',
                           'new_oid', 'sync', 'pack'])
        try:
            for _ in range(rng.choice([0, 0, 1, 2])):
                self.work()
            packs = self.server.packs_started
            for _ in range(rng.choice([0, 0, 1])):
                model.new_oid(bad)
            if what == 'commit':
                self.fill(bad)
                pending = dict(bad.pending)
                total = 5 + sum(12 + len(record)
                                for record, refs in pending.values())
                answer = 5 + 8 * len(bad.invalid)
            else:
                total = 20
                answer = 40
            if rng.random() < 0.7:
                limit = rng.choice([
                    rng.randrange(total + 1), rng.randrange(min(total, 30)),
                    total - rng.randrange(min(20, total)), total, total - 1])
                s.arm('sent', limit, way, b'')
            else:
                limit = rng.randrange(answer + 1)
                s.arm('received', limit, way, b'')
            if rng.random() < 0.2 and (what != 'commit' or
                                       s.direction == 'sent' and
                                       limit >= total):
                s.garbage = self.garbage()
            self.env.op('bad', what, s.direction, limit, total, way,
                        len(s.garbage))
            if what == 'commit':
                model.end(bad, rng.random() < 0.1)
                pending = {}
            elif what == 'load':
                model.load(bad, rng.choice(sorted(model.records)))
            elif what == 'bulk_load':
                model.bulk_load(bad, [rng.choice(sorted(model.records))
                                      for _ in range(rng.choice([1, 10]))])
            elif what == 'new_oid':
                for _ in range(40):
                    model.new_oid(bad)
            elif what == 'sync':
                model.sync(bad)
            else:
                bad.storage.pack()
            self.env.count('dialogs completed')
            give_up(s.s, way)
        except Cut:
            self.env.count('dialogs cut')
        self.env.count('failing during ' + what)
        if way in ('stall', 'deaf'):
            self.sockets.append(s.s)
        model.peers.remove(bad)
        self.settle(1 + len(s.garbage))
        if pending:
            sure = s.sent < total
            self.outcome(pending, 'impossible' if sure else 'possible')
        self.after_pack(packs)
        self.look_around()

    def after_pack(self, packs):
        self.settle(0)
        if self.server.packs_started > packs:
            self.server.finish_pack()
            self.model.has_packed()
            self.env.count('packs of clients that failed')

    def probe(self):
        """-> a new client, which has nothing to forget"""
        peer = Peer(self.model, 'new')
        self.env.count('new clients')
        return peer

    def outcome(self, pending, effect):
        """Has it been committed?"""
        model = self.model
        peer = self.probe()
        new = set()
        old = set()
        for oid in sorted(pending):
            record = pending[oid][0]
            try:
                found = peer.storage.load(oid)
            except KeyError:
                found = None
            if found == record:
                new.add(oid)
            else:
                require(found == model.records.get(oid),
                        'record %r is neither the one before an interrupted '
                        'commit nor the one after it: %s', oid, short(found))
                old.add(oid)
        peer.close()
        require(not new or not old, 'an interrupted commit has stored %s '
                'and not %s', short(sorted(new)), short(sorted(old)))
        if new:
            require(effect == 'possible',
                    'a commit that was not complete or not valid took effect')
            model.has_committed(None, pending)
            self.env.count('interrupted commits with effect')
        else:
            self.env.count('interrupted commits without effect')

    def raw(self):
        """-> a socket without any client"""
        s = self.server.raw()
        return s

    def malformed(self):
        rng = self.rng
        model = self.model
        s = self.raw()
        packs = self.server.packs_started
        way = self.way()
        requests = 1
        pending = {}
        records = sorted(model.records)
        def send(*data):
            try:
                s.sendall(b''.join(data))
            except OSError:
                pass
        def number(n):
            return struct.pack('>L', n)
        if rng.random() < 0.7:
            send(b'V', number(1))
            require(s.recv(4) == number(1), 'protocol')
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 3, 20])):
                requests += 1
                send(rng.choice([b'L' + rng.choice(records), b'N', b'S',
                                 b'M' + bytes([rng.randrange(256)]),
                                 b'L' + missing_oid(rng, model)]))
        what = rng.choice([
            'garbage', 'unknown command', 'protocol', 'short bulk load',
            'huge bulk load', 'unread', 'bad length', 'bad framing',
            'foreign oid', 'foreign oid', 'huge record', 'valid'])
        self.env.op('bad', what, way)
        self.env.count('malformed: ' + what)
        if what == 'garbage':
            data = self.garbage()
            requests += len(data)
            send(data)
        elif what == 'unknown command':
            send(bytes([rng.choice([
                x for x in range(256) if x not in b'BCLMNPQSV'])]))
        elif what == 'protocol':
            send(b'V', number(rng.choice([0, 2, 2 ** 32 - 1])))
        elif what == 'short bulk load':
            send(b'B', number(rng.choice([1, 2, 100])), rng.choice(records),
                 rng.randbytes(rng.randrange(8)))
        elif what == 'huge bulk load':
            send(b'B', number(rng.choice([2 ** 32 - 1, 2 ** 31, 2 ** 29])),
                 rng.choice(records) * 1000)
        elif what == 'unread':
            # It asks for more than it is going to read.
            n = rng.choice([1000, 20000])
            send(b'B', number(n), rng.choice(records) * n)
        else:
            if what == 'foreign oid':
                foreign = [oid for peer in self.honest
                           for oid in sorted(peer.reserved)
                           if oid not in model.records]
                if not foreign:
                    what = 'valid'
            self.raw_commit(send, number, what, s, pending)
        give_up(s, way)
        if way in ('stall', 'deaf'):
            self.sockets.append(s)
        self.settle(requests)
        if pending:
            self.outcome(pending, 'possible' if what == 'valid' else
                         'impossible')
        self.after_pack(packs)
        self.look_around()

    def raw_commit(self, send, number, what, s, pending):
        rng = self.rng
        model = self.model
        records = sorted(model.records)
        oids = rng.sample(records, min(len(records), rng.choice([1, 2, 5])))
        for oid in oids:
            pending[oid] = pack_record(
                oid, self.data(),
                b''.join(sorted(model.refs[oid]))), model.refs[oid]
        parts = [number(8 + len(record)) + oid + record
                 for oid, (record, refs) in pending.items()]
        if what == 'foreign oid':
            peer = rng.choice([peer for peer in self.honest if peer.reserved])
            oid = rng.choice(sorted(peer.reserved))
            record = pack_record(oid, self.data(), b'')
            pending[oid] = record, []
            parts.insert(rng.randrange(len(parts) + 1),
                         number(8 + len(record)) + oid + record)
        elif what == 'bad framing':
            n = rng.randrange(len(parts))
            oid, record = parts[n][4:12], parts[n][12:]
            bad = rng.choice([
                number(rng.randrange(8)), number(7 + len(record)),
                number(9 + len(record)), number(2 ** 32 - 1), number(0),
                number(4), b''])
            parts[n] = bad + oid + record
            if rng.random() < 0.3:
                # For which a careless reader finds the end where it should.
                oid = ROOT
                parts = [number(rng.randrange(8)) + oid]
                pending.clear()
                pending[oid] = b'', []
        tdata = b''.join(parts)
        if what == 'bad framing' and rng.random() < 0.2:
            tdata += self.rng.randbytes(rng.randrange(1, 12))
        elif what == 'bad framing' and rng.random() < 0.2:
            tdata = tdata[:rng.randrange(1, len(tdata))]
        length = len(tdata)
        if what == 'bad length':
            length += rng.choice([1, 4, 100, 10 ** 6])
        elif what == 'huge record':
            length = rng.choice([2 ** 32 - 1, 2 ** 31])
        if what == 'bad framing' and well_formed(tdata):
            pending.clear()
            return
        self.env.op('commit', length, tdata)
        send(b'C', number(length), tdata)

    def crowd(self):
        """Many connections that are good for nothing."""
        n = self.rng.choice([2, 10, 30])
        self.env.op('crowd', n)
        sockets = []
        for _ in range(n):
            s = self.raw()
            if self.rng.random() < 0.5:
                way = self.rng.choice(['close', 'reset'])
                give_up(s, way)
            else:
                sockets.append(s)
        self.env.count('idle connections', n)
        self.settle()
        self.look_around()
        for s in sockets:
            give_up(s, self.rng.choice(['close', 'reset']))
        self.settle()

    def look_around(self):
        """Everyone else sees what is stored."""
        model = self.model
        peer = self.probe()
        for oid in sorted(model.records):
            model.load(peer, oid)
        peer.close()
        for x in self.honest:
            if self.rng.random() < 0.5:
                model.sync(x)
            else:
                for oid in sorted(model.records):
                    model.load(x, oid)
        self.env.count('looks at everything')


def well_formed(tdata):
    i = 0
    while i < len(tdata):
        if i + 12 > len(tdata):
            return False
        n, = struct.unpack('>L', tdata[i:i + 4])
        if n < 8 or i + 4 + n > len(tdata):
            return False
        i += 4 + n
    return True


def file_descriptors():
    return len(os.listdir('/proc/self/fd'))


def failing_clients(rng, env):
    faults = Faults(rng, env)
    server = faults.server
    model = faults.model
    faults.settle()
    before = file_descriptors()
    for _ in range(rng.choice([5, 15, 30])):
        server.check()
        p = rng.random()
        if p < 0.4:
            faults.work()
        elif p < 0.7:
            faults.interrupted()
        elif p < 0.95:
            faults.malformed()
        else:
            faults.crowd()
    for s in faults.sockets:
        s.close()
    faults.settle()
    after = file_descriptors()
    require(after <= before + 3, 'there were %s open files, now there are %s, '
            'with the same clients', before, after)
    for peer in faults.honest:
        model.verify(peer)
        peer.close()
    server.stop()
