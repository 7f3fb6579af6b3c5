"""S06: oids allocated through several clients of a server."""
from durus.error import ConflictError, WriteConflictError
from durus.serialize import pack_record

from vlib.case import Violation, equal, require
from vlib.server import Server, new_address
from vlib.storages import FILE_KINDS

ROOT = b'\0' * 8


def name(oid):
    return int.from_bytes(oid, 'big')


class Peer(object):

    def __init__(self, world, number):
        self.world = world
        self.number = number
        self.connect()

    def connect(self):
        self.storage = self.world.server.client()
        self.storage.oid_pool_size = self.world.rng.choice([1, 2, 32, 255])
        self.held = set() # handed out, and still to be stored
        self.fresh = set() # those of this transaction
        self.since = self.world.now()
        self.reported = {} # oid -> when


class World(object):

    def __init__(self, rng, env, server):
        self.rng = rng
        self.env = env
        self.server = server
        self.time = 0
        self.stored = {} # oid -> (record, refs)
        self.unreachable = {} # oid of a stored object -> since when
        self.packed = 0 # when a pack made its last step
        self.peers = []
        self.serial = 0

    def now(self):
        self.time += 1
        return self.time

    def reachable(self):
        seen = set()
        todo = [ROOT]
        while todo:
            oid = todo.pop()
            if oid not in seen:
                seen.add(oid)
                todo.extend(self.stored[oid][1])
        return seen

    def told(self, peer, oids):
        now = self.now()
        for oid in oids:
            peer.reported[oid] = now

    def sync(self, peer):
        self.told(peer, peer.storage.sync())

    def allocate(self, peer):
        oid = peer.storage.new_oid()
        equal((type(oid), len(oid)), (bytes, 8), 'an oid')
        self.env.count('oids allocated')
        for x in self.peers:
            require(oid not in x.held, 'client %s is given the oid %s, which '
                    'client %s got before and has not stored yet', peer.number,
                    name(oid), x.number)
        if oid in self.stored:
            since = self.unreachable.get(oid)
            require(since is not None, 'client %s is given %s, which is the '
                    'oid of a reachable object', peer.number, name(oid))
            require(self.packed > since,
                    'client %s is given %s, the oid of an object that no pack '
                    'has removed', peer.number, name(oid))
            for x in self.peers:
                require(x.since > since or x.reported.get(oid, 0) > since,
                        'client %s is given the oid %s of an object that a '
                        'pack removed, but client %s has not been told',
                        peer.number, name(oid), x.number)
            del self.stored[oid], self.unreachable[oid]
            self.env.count('oids of removed objects used again')
        peer.held.add(oid)
        peer.fresh.add(oid)
        return oid

    def record(self, oid, refs):
        self.serial += 1
        return pack_record(oid, b'%d ' % self.serial * self.rng.choice(
            [1, 1, 50]), b''.join(refs))

    def commit(self, peer, give_up=False):
        rng = self.rng
        storage = peer.storage
        storage.begin()
        peer.fresh = set()
        self.sync(peer)
        alive = sorted(self.reachable()) if self.stored else []
        new = []
        for _ in range(rng.choice([0, 1, 2, 5, 40])):
            if peer.held and rng.random() < 0.3:
                oid = rng.choice(sorted(peer.held))
                if oid not in new:
                    new.append(oid)
            else:
                new.append(self.allocate(peer))
        pending = {}
        for oid in new:
            refs = [rng.choice(alive + new) for _ in range(rng.randrange(3))]
            pending[oid] = self.record(oid, refs), refs
        old = [oid for oid in alive if oid != ROOT]
        for oid in rng.sample(old, min(len(old), rng.choice([0, 1, 3]))):
            refs = [rng.choice(alive + new) for _ in range(rng.randrange(3))]
            pending[oid] = self.record(oid, refs), refs
        refs = [oid for oid in self.stored[ROOT][1] if rng.random() < 0.8]
        refs += [oid for oid in new if rng.random() < 0.7]
        pending[ROOT] = self.record(ROOT, refs), refs
        self.env.op(peer.number, 'stores', [name(x) for x in sorted(pending)])
        if give_up and rng.random() < 0.5:
            # Another client is faster.
            other = rng.choice(self.peers)
            if other is not peer and self.stored:
                self.touch(other)
        for oid, (record, refs) in pending.items():
            storage.store(oid, record)
        given = []
        def handler(oids):
            given.extend(oids)
            if give_up:
                raise WriteConflictError(list(oids))
        try:
            storage.end(handler)
        except ConflictError:
            self.told(peer, given)
            peer.held -= peer.fresh # It may use them again.
            self.env.count('commits given up')
            self.env.op(peer.number, 'gives up')
            # What has been removed during a pack can come back.
        else:
            self.told(peer, given)
            self.has_stored(pending)
            peer.held.difference_update(pending)
            self.env.count('commits')
        peer.fresh = set()

    def has_stored(self, pending):
        before = self.reachable() if ROOT in self.stored else set()
        self.stored.update(pending)
        after = self.reachable()
        now = self.now()
        for oid in self.stored:
            if oid in after:
                self.unreachable.pop(oid, None)
            elif oid in before or oid in pending:
                self.unreachable[oid] = now

    def touch(self, peer):
        """A commit that changes nothing but one record."""
        self.sync(peer)
        peer.storage.begin()
        oid = self.rng.choice(sorted(self.reachable()))
        refs = self.stored[oid][1]
        pending = {oid: (self.record(oid, refs), refs)}
        peer.storage.store(oid, pending[oid][0])
        peer.storage.end(lambda oids: self.told(peer, oids))
        self.env.op(peer.number, 'touches', name(oid))
        self.has_stored(pending)

    def verify(self, peer):
        self.sync(peer)
        for oid in sorted(self.reachable()):
            try:
                record = peer.storage.load(oid)
            except KeyError:
                raise Violation('%s got lost' % name(oid))
            equal(record, self.stored[oid][0], 'the record of %s' % name(oid))
            self.env.count('records compared')


def clients(rng, env):
    """Clients that allocate, commit, give up, leave and come back."""
    kind = rng.choice(FILE_KINDS)
    address = new_address(rng, env)
    env.op(kind, type(address).__name__)
    server = Server(env, kind, env.fresh('db'), address)
    env.count('histories on ' + kind)
    world = World(rng, env, server)
    for number in range(rng.choice([2, 3, 8])):
        world.peers.append(Peer(world, number))
    first = world.peers[0]
    oid = world.allocate(first)
    equal(oid, ROOT, 'the first oid')
    first.storage.begin()
    first.fresh = set()
    world.stored[ROOT] = world.record(ROOT, []), []
    first.storage.store(ROOT, world.stored[ROOT][0])
    first.storage.end(lambda oids: None)
    first.held.discard(ROOT)
    finished = server.finished_packs
    for _ in range(rng.choice([15, 40, 80])):
        server.check()
        peer = rng.choice(world.peers)
        n = rng.random()
        if n < 0.25:
            for _ in range(rng.choice([1, 2, 10, 70])):
                world.allocate(peer)
            env.op(peer.number, 'allocates')
        elif n < 0.55:
            world.commit(peer)
        elif n < 0.65:
            world.commit(peer, give_up=True)
        elif n < 0.85:
            if not server.packing:
                env.op(peer.number, 'pack')
                peer.storage.pack()
            if rng.random() < 0.5:
                server.finish_pack()
            else:
                server.step(rng.choice([1, 2, 5, 30]))
            world.packed = world.now()
            env.op('pack goes on')
        elif n < 0.92:
            env.op(peer.number, 'sync')
            world.sync(peer)
        elif n < 0.97:
            env.op(peer.number, 'reconnect')
            peer.storage.close()
            peer.held = set()
            peer.connect()
        elif n < 0.985:
            env.op('restart')
            for x in world.peers:
                x.storage.close()
            server.restart()
            for x in world.peers:
                x.connect()
            env.count('restarts')
        else:
            world.verify(peer)
    env.count('packs', server.finished_packs - finished)
    server.finish_pack()
    for peer in world.peers:
        world.verify(peer)
        peer.storage.close()
    server.stop()
    if len(world.stored) > 3:
        env.nontrivial = True
