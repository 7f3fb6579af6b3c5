"""K07: packs that the server starts by itself."""
import time

from durus.connection import Connection

from vlib.case import equal, require
from vlib.classes import Node
from vlib.server import PATIENCE, Server, new_address
from vlib.storages import FILE_KINDS, open_storage

THRESHOLDS = [1, 60, 300, 1000, 1000, 2500.5, 6000, 20000]


class Steps(object):
    """The steps of a pack, of which one may fail."""

    def __init__(self, packer, good):
        self.packer = packer
        self.good = good

    def __iter__(self):
        return self

    def __next__(self):
        if self.good == 0:
            self.packer.close()
            raise OSError('a step of the pack fails')
        if self.good is not None:
            self.good -= 1
        return next(self.packer)

    def close(self):
        self.packer.close()


class Watch(object):

    def __init__(self, rng, env):
        self.rng = rng
        self.env = env
        self.attempts = 0
        self.refuse = False
        self.good = None
        self.kind = rng.choice(FILE_KINDS)
        self.threshold = rng.choice(THRESHOLDS)
        self.path = env.path('data')
        self.server = Server(env, self.kind, self.path, new_address(rng, env),
                             gcbytes=self.threshold, wrap=self.wrap)
        env.op(self.kind, 'gcbytes', self.threshold)
        # Bytes committed since the last pack: at least, and at most (what is
        # counted for each record and commit is up to the server).
        self.low = self.high = 0
        self.seen = 0
        self.was_packing = False
        self.model = {}
        self.disturbed = False # a commit during the current pack
        self.monitor = self.server.client()
        self.connections = [self.connect() for _ in range(rng.choice([1, 2]))]
        self.settle(False) # the root.

    def wrap(self, storage):
        get_packer = storage.get_packer
        def watched():
            self.attempts += 1
            if self.refuse:
                self.refuse = False
                raise OSError('no pack now')
            return Steps(get_packer(), self.good)
        storage.get_packer = watched
        return storage

    def connect(self):
        storage = self.server.client()
        store = storage.store
        def counted(oid, record):
            self.low += len(record)
            self.high += len(record) + 64
            store(oid, record)
        storage.store = counted
        end = storage.end
        def counted_end(*args, **kwargs):
            self.high += 64
            return end(*args, **kwargs)
        storage.end = counted_end
        return Connection(storage, cache_size=self.rng.choice([2, 1000]))

    def reset(self):
        """The server starts again."""
        self.monitor = self.server.client()
        self.low = self.high = 0
        self.seen = self.attempts
        self.was_packing = self.disturbed = False

    def settle(self, requested):
        """After each request: has a pack been started, and rightly so?"""
        server = self.server
        self.monitor.sync()
        due = (self.threshold and self.low >= self.threshold and
               not self.was_packing)
        if due or requested:
            end = time.time() + PATIENCE
            while self.attempts == self.seen and time.time() < end:
                time.sleep(0.001)
        server.check()
        new = self.attempts - self.seen
        self.seen = self.attempts
        if requested:
            require(new == 1, 'a pack was requested and %s started', new)
        elif self.was_packing:
            require(new == 0, 'another pack was started during a pack')
        elif new:
            require(new == 1, '%s packs were started at once', new)
            require(self.threshold and self.high >= self.threshold,
                    'a pack was started after at most %s of %s bytes',
                    self.high, self.threshold)
            self.env.count('packs started automatically')
        else:
            require(not due, 'no pack was started after at least %s of %s '
                    'bytes', self.low, self.threshold)
        if new:
            self.low = 0
            if server.packing:
                if not requested:
                    self.high = 0
                self.disturbed = False
            else:
                # It was refused.  The next attempt may follow soon.
                self.high = float('inf')
                self.env.count('packs that did not start')
        self.was_packing = server.packing

    def commit(self, c):
        rng = self.rng
        c.abort()
        root = c.get_root()
        for _ in range(rng.choice([1, 1, 2, 5])):
            key = 'k%d' % rng.randrange(6)
            size = rng.choice([0, 1, 30, 200, 900, 2000, 7000])
            v = rng.randbytes(rng.randrange(size + 1))
            if key in root and rng.random() < 0.3:
                root[key].v = v
            else:
                root[key] = Node()
                root[key].v = v
            self.model[key] = v
            self.env.op('commit', key, len(v))
        if self.server.packing:
            self.disturbed = True
            self.env.count('commits during packs')
        packing = self.was_packing
        c.commit()
        if packing:
            # These may count for the next pack, or not.
            self.low = 0
        self.settle(False)

    def verify(self):
        for c in self.connections:
            c.abort()
            root = c.get_root()
            equal(dict((k, root[k].v) for k in root), self.model,
                  'values that a client sees')

    def finish(self):
        self.server.finish_pack()
        self.pack_ended()

    def pack_ended(self):
        """Bytes count from here on at the latest."""
        self.was_packing = False
        self.low = 0

    def stored(self):
        """Compare what is in the storage with what is reachable."""
        self.server.stop()
        storage = open_storage(self.kind, self.path)
        oids = set(oid for oid, record in storage.gen_oid_record())
        c = Connection(storage)
        root = c.get_root()
        expected = set([root._p_oid] + [x._p_oid for x in root.values()])
        equal(sorted(oids), sorted(expected), 'oids in the storage after a '
              'pack')
        storage.close()
        if self.rng.random() < 0.3:
            self.threshold = self.rng.choice(THRESHOLDS)
            self.server.gcbytes = self.threshold
        self.server.start()
        self.reset()
        self.connections = [self.connect() for _ in self.connections]
        self.env.count('storages compared after a pack')


def automatic(rng, env):
    watch = Watch(rng, env)
    server = watch.server
    if rng.random() < 0.1:
        # Off: this server is not to pack by itself.
        server.stop()
        server.gcbytes = watch.threshold = 0
        server.start()
        watch.reset()
        watch.connections = [watch.connect() for _ in watch.connections]
        env.count('servers that do not pack by themselves')
    clean = False
    for _ in range(rng.randrange(4, 30)):
        c = rng.choice(watch.connections)
        n = rng.random()
        packs = server.finished_packs
        if n < 0.6:
            watch.commit(c)
            clean = False
        elif n < 0.7 and server.packing:
            env.op('steps')
            server.step(rng.randrange(1, 8))
            if not server.packing:
                watch.pack_ended()
                clean = not watch.disturbed and server.finished_packs > packs
        elif n < 0.8 and server.packing:
            env.op('finish')
            watch.finish()
            clean = not watch.disturbed and server.finished_packs > packs
        elif n < 0.84:
            env.op('pack')
            c.abort()
            if watch.was_packing:
                c.pack()
                watch.settle(False)
            else:
                c.pack()
                watch.settle(True)
        elif n < 0.88 and not server.packing and watch.threshold:
            watch.refuse = True
            env.op('the next pack is refused')
            for _ in range(200):
                if not watch.refuse:
                    break
                watch.commit(c)
            require(not watch.refuse, 'no more packs')
            clean = False
        elif n < 0.92 and not server.packing:
            watch.good = rng.randrange(1, 9)
            env.op('steps fail')
        elif n < 0.97 and clean and not server.packing:
            env.op('compare')
            watch.stored()
        else:
            watch.verify()
            watch.settle(False)
        if server.packing:
            watch.good = None
    # All comes to an end.
    watch.good = None
    if server.packing:
        watch.finish()
    watch.verify()
    if watch.threshold:
        for _ in range(200):
            if server.packing:
                break
            watch.commit(watch.connections[0])
        require(server.packing, 'no more packs')
        failed = server.failed_packs
        watch.finish()
        equal(server.failed_packs, failed, 'number of packs that failed')
        watch.stored()
    watch.verify()
    env.count('packs finished', server.finished_packs)
    env.count('packs with a step that failed', server.failed_packs)
    for c in watch.connections:
        c.storage.close()
    server.stop()
