"""K01-K04, K07: clients of a storage server, and what they get to see.

One thread drives several clients of a real server, so the order of requests
is that of the workload.  The monitor keeps every version of every object with
the range of commits during which it was current.
"""
from durus.btree import BNode, BNode4, BNode16, BTree
from durus.connection import Connection, ROOT_OID
from durus.connection import gen_every_instance
from durus.error import ConflictError, ReadConflictError, WriteConflictError
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet

from vlib.case import Violation, equal, require, short
from vlib.classes import Dict2, Node
from vlib.server import Server, new_address
from vlib.storages import FILE_KINDS, Shared, open_storage

ALL = frozenset(['K01', 'K02', 'K03', 'K04', 'K07'])


# How often the clients do something.
ODDS = {'read': 40, 'write': 22, 'create': 14, 'unlink': 6, 'move': 7,
        'crawl': 8, 'shrink': 3}


class InProcess(object):
    """Stands for a server: the clients share the records in this process."""
    address = None
    packing = False
    packs_started = 0

    def __init__(self):
        self.shared = Shared()

    def client(self):
        return self.shared.view()

    def check(self):
        pass

    def restart(self):
        pass

    def stop(self):
        pass


class World(object):
    """What has been committed."""

    def __init__(self, rng, env, judges, gcbytes=0, kinds=None):
        self.rng = rng
        self.env = env
        self.judges = judges
        kind = rng.choice(kinds or ['MemoryStorage'] + FILE_KINDS)
        self.kind = kind
        if kind == 'Shared':
            self.server = InProcess()
        else:
            self.server = Server(env, kind, env.fresh('db'),
                                 new_address(rng, env), gcbytes=gcbytes)
        # Every history has its own mixture of operations.
        self.odds = dict((op, rng.choice([0.1, 1, 1, 1, 3])) for op in ODDS)
        self.commits = 0
        self.history = {} # name -> [(commit, v)]
        self.content = {} # v -> (name, {kid names})
        self.authors = {} # commit -> client number
        self.written = {} # commit -> names
        self.oids = {} # name -> oid
        self.kinds = {} # name -> class
        self.serial = 0
        self.clients = []
        self.reused = set()
        self.graphs = {} # commit -> reachable names
        env.op('server', kind, type(self.server.address).__name__, gcbytes)

    def judge(self, prop, condition, message, *args):
        if not condition and (prop in self.judges or 'K07' in self.judges):
            raise Violation(message % args)

    def fresh(self):
        self.serial += 1
        return self.serial

    def current(self, name):
        return self.history[name][-1][1]

    def graph(self):
        """-> {name} of the objects that are reachable in the current state"""
        seen = set(['root'])
        todo = ['root']
        while todo:
            for kid in self.content[self.current(todo.pop())][1]:
                if kid not in seen:
                    seen.add(kid)
                    todo.append(kid)
        return seen

    def path_to(self, name):
        """-> [name] from the root in the current state, or None"""
        before = {'root': None}
        todo = ['root']
        for x in todo:
            if x == name:
                path = []
                while x is not None:
                    path.append(x)
                    x = before[x]
                return path[::-1]
            kids = sorted(self.content[self.current(x)][1])
            self.rng.shuffle(kids)
            for kid in kids:
                if kid not in before:
                    before[kid] = x
                    todo.append(kid)
        return None

    def interval(self, name, v):
        """-> first commit with this version, first commit with a later one"""
        versions = self.history[name]
        for n, (commit, value) in enumerate(versions):
            if value == v:
                if n + 1 < len(versions):
                    return commit, versions[n + 1][0]
                return commit, None
        return None

    def changed_since(self, boundary):
        result = set()
        for commit in range(boundary + 1, self.commits + 1):
            result.update(self.written[commit])
        return result

    def apply(self, client, writes):
        self.commits += 1
        self.authors[self.commits] = client.number
        self.written[self.commits] = set(writes)
        for name, (v, kids) in writes.items():
            self.history.setdefault(name, []).append((self.commits, v))
            self.content[v] = name, frozenset(kids)
        self.graphs[self.commits] = frozenset(self.graph())


def get_v(obj):
    return obj['v'] if isinstance(obj, PersistentDict) else obj.v


def get_w(obj):
    return obj['w'] if isinstance(obj, PersistentDict) else obj.w


def get_kids(obj):
    return obj['kids'] if isinstance(obj, PersistentDict) else obj.kids


def assign(obj, name, value):
    if isinstance(obj, PersistentDict):
        obj[name] = value
    else:
        setattr(obj, name, value)


class Client(object):

    def __init__(self, world, number):
        self.world = world
        self.rng = world.rng
        self.env = world.env
        self.number = number
        self.connect()

    def connect(self):
        cache_size = self.rng.choice([1, 2, 5, 10, 1000])
        self.forgetful = self.rng.choice([0, 0, 0.2, 0.5, 1])
        self.env.op(self.number, 'connects', cache_size)
        self.storage = self.world.server.client()
        self.connection = Connection(self.storage, cache_size=cache_size)
        self.handles = {'root': self.connection.get_root()}
        self.crawlers = []
        self.begin()

    def close(self):
        self.crawlers = []
        self.handles = {}
        self.connection = None
        self.storage.close()

    def begin(self):
        """A transaction boundary has been passed."""
        self.boundary = self.world.commits
        self.reads = {}
        self.writes = {}
        self.new = {}
        self.touched = set()
        self.lo = 0
        self.hi = None
        self.work = []
        self.conflicted = False
        if self.world.commits:
            self.prune()

    # observing

    def observe(self, name, v, kids):
        world = self.world
        if name in self.writes:
            own_v, own_kids = self.writes[name]
            require(v == own_v and set(kids) == set(own_kids),
                    'client %s does not see its own change of %s',
                    self.number, name)
            return
        if self.conflicted:
            return
        self.env.count('reads judged')
        if v not in world.content:
            if 'K02' in world.judges or 'K07' in world.judges:
                raise Violation('client %s reads a value of %s that was never '
                                'committed: %s' % (self.number, name, v))
            return
        owner, names = world.content[v]
        world.judge('K02', owner == name and set(kids) == set(names),
                    'client %s reads a state of %s that is not one of its '
                    'versions: version %s of %s with %s', self.number, name, v,
                    owner, sorted(kids))
        if owner != name:
            return
        if name in self.reads:
            world.judge('K02', self.reads[name] == v,
                        'client %s reads version %s of %s and then version %s '
                        'in the same transaction', self.number,
                        self.reads[name], name, v)
        self.reads[name] = v
        start, end = world.interval(name, v)
        world.judge('K03', end is None or end > self.boundary,
                    'client %s reads version %s of %s, which was replaced in '
                    'commit %s, before its transaction began after commit %s',
                    self.number, v, name, end, self.boundary)
        self.see(name, start, end, 'reads')

    def see(self, name, start, end, what):
        """It sees a state of commit start or later, before commit end."""
        world = self.world
        self.lo = max(self.lo, start)
        if end is not None:
            self.hi = end - 1 if self.hi is None else min(self.hi, end - 1)
            self.env.count('reads of a version that was replaced meanwhile')
        world.judge('K02', self.hi is None or self.lo <= self.hi,
                    'client %s %s %s: it has now seen a state after commit '
                    '%s and one before commit %s: %s', self.number, what,
                    name, self.lo, (self.hi or 0) + 1,
                    short(sorted((n, r) + world.interval(n, r)
                                 for n, r in self.reads.items())))

    def look(self, name, obj):
        """Read everything in the object."""
        v = get_v(obj)
        self.touched.add(name)
        kids = get_kids(obj)
        self.observe(name, v, kids)
        for kid, x in kids.items():
            if kid not in self.handles or self.handles[kid] is not x:
                self.handles[kid] = x
        return kids

    def find(self, name, way):
        """-> the object, or None if there is no way to it."""
        if name == 'root':
            return self.connection.get_root()
        if way == 'handle':
            obj = self.handles.get(name)
            if obj is None or not self.visible(name):
                return None
            return obj
        if way == 'oid':
            world = self.world
            if name not in world.oids or name in world.reused:
                return None
            obj = self.connection.get(world.oids[name])
            if obj is not None:
                return obj if self.visible(name) else None
            if self.conflicted:
                return None
            # So what it sees is a state without this object.
            world.judge('K02', name not in world.graph(),
                        'client %s does not find %s', self.number, name)
            self.env.count('objects that are gone')
            last = max(c for c in world.graphs if name in world.graphs[c])
            self.see(name, last + 1, None, 'does not find')
            return None
        path = self.world.path_to(name)
        if path is None:
            return None
        obj = self.connection.get_root()
        for before, x in zip(path, path[1:]):
            kids = self.look(before, obj)
            obj = kids.get(x)
            if obj is None:
                return None
        return obj

    def prune(self):
        """
        Forget what was unlinked by others, as a program has to, because its
        oid may get a new meaning, except for what this transaction got from an
        object that it has read.
        """
        keep = self.world.graph() | set(self.new)
        if not self.conflicted:
            for v in self.reads.values():
                keep |= self.world.content[v][1]
        for name in list(self.handles):
            if name not in keep or (name != 'root' and
                                    self.rng.random() < self.forgetful):
                del self.handles[name]

    def visible(self, name):
        """Is it an object that the client may expect to be there?"""
        return name in self.handles or name in self.world.graph()

    # operations

    def change(self, name, obj, v, blind=False, kids=None):
        """Give the object a new version, and perhaps other kids."""
        if name not in self.writes and not blind:
            self.look(name, obj)
        assign(obj, 'v', v)
        self.touched.add(name)
        if name not in self.writes:
            self.observe(name, get_w(obj), get_kids(obj))
        assign(obj, 'w', v)
        if kids is not None:
            assign(obj, 'kids', kids)
        self.writes[name] = v, set(get_kids(obj))

    def do(self, op):
        kind = op[0]
        if kind == 'read':
            obj = self.find(op[1], op[2])
            if obj is not None:
                self.look(op[1], obj)
        elif kind == 'write':
            obj = self.find(op[1], op[2])
            if obj is not None:
                self.change(op[1], obj, self.world.fresh(), blind=op[3])
        elif kind == 'create':
            parent = self.find(op[1], op[2])
            if parent is not None:
                kids = dict(self.look(op[1], parent))
                obj = op[4]()
                name = 'n%d' % self.world.fresh()
                v = self.world.fresh()
                assign(obj, 'v', v)
                assign(obj, 'w', v)
                assign(obj, 'kids', {})
                kids[name] = obj
                self.handles[name] = obj
                self.new[name] = obj
                self.writes[name] = v, set()
                self.change(op[1], parent, self.world.fresh(), kids=kids)
        elif kind == 'unlink':
            parent = self.find(op[1], op[2])
            if parent is not None:
                kids = dict(self.look(op[1], parent))
                if kids:
                    del kids[sorted(kids)[op[3] % len(kids)]]
                    self.change(op[1], parent, self.world.fresh(), kids=kids)
        elif kind == 'move':
            a = self.find(op[1], 'path')
            b = self.find(op[2], 'path')
            if a is not None and b is not None and a is not b:
                kids = dict(self.look(op[1], a))
                others = dict(self.look(op[2], b))
                if kids:
                    name = sorted(kids)[op[3] % len(kids)]
                    others[name] = kids[name]
                    if op[4]:
                        del kids[name]
                        self.change(op[1], a, self.world.fresh(), kids=kids)
                    self.change(op[2], b, self.world.fresh(), kids=others)
        elif kind == 'crawl':
            if not self.crawlers or op[2]:
                if op[3]:
                    crawler = gen_every_instance(self.connection, Node)
                else:
                    crawler = self.connection.get_crawler(batch_size=op[4])
                self.crawlers = self.crawlers[-2:] + [crawler]
            crawler = self.crawlers[-1]
            for _ in range(op[1]):
                try:
                    obj = next(crawler)
                except StopIteration:
                    self.crawlers.remove(crawler)
                    break
                except Exception:
                    self.crawlers.remove(crawler)
                    raise
                require(obj is not None, 'an iteration gives None')
                self.env.count('objects crawled')
                name = self.name_of(obj)
                if op[5] and name is not None and name in self.world.graph():
                    self.look(name, obj)
        elif kind == 'shrink':
            self.connection.shrink_cache()
        else:
            raise AssertionError(op)

    def name_of(self, obj):
        oid = obj._p_oid
        for name in self.handles:
            if self.handles[name] is obj:
                return name
        for name, x in self.world.oids.items():
            if x == oid and name in self.world.graph():
                return name
        return None

    def culprits(self):
        """Names of the objects that justify a conflict."""
        world = self.world
        result = self.touched & world.changed_since(self.boundary)
        if world.server.packs_started:
            result |= self.touched - world.graph() - set(self.new)
        return result

    def attempt(self, op):
        """-> False after a conflict"""
        self.env.op(self.number, *[x.__name__ if isinstance(x, type) else x
                                   for x in op])
        self.work.append(op)
        self.prune()
        if (len(op) > 1 and op[1] in self.handles and
            op[1] not in self.world.graph() and op[1] not in self.new):
            self.env.count('accesses to objects that were unlinked meanwhile')
        try:
            self.do(op)
        except ReadConflictError as e:
            self.env.op(self.number, 'read conflict')
            self.env.count('read conflicts')
            world = self.world
            reasons = self.culprits()
            if op[0] == 'crawl':
                reasons |= world.changed_since(self.boundary)
                if world.server.packs_started:
                    reasons.add('pack')
            elif (len(op) > 1 and op[1] not in world.graph() and
                  world.server.packs_started):
                reasons.add(op[1])
            world.judge('K04', reasons or self.conflicted,
                        'client %s gets a read conflict although nothing that '
                        'it accessed has changed: %s %s', self.number, e,
                        sorted(self.touched))
            self.conflicted = True
            return False
        return True

    def commit(self):
        """-> False after a conflict"""
        world = self.world
        self.env.op(self.number, 'commit', sorted(self.writes))
        loose = self.loose_ends()
        try:
            self.connection.commit()
        except ConflictError as e:
            self.env.op(self.number, 'conflict')
            self.env.count('commits refused')
            culprits = self.culprits()
            world.judge('K04', culprits,
                        'client %s gets a conflict although nothing that it '
                        'accessed has changed: %s %s', self.number, e,
                        sorted(self.touched))
            if e.oids is not None:
                named = set(e.oids)
                allowed = set(world.oids[n] for n in culprits
                              if n in world.oids)
                world.judge('K04', named <= allowed or isinstance(
                                e, ReadConflictError),
                            'a conflict names objects that were not accessed '
                            'or have not changed: %s',
                            sorted(named - allowed))
            self.conflicted = True
            return False
        except AssertionError:
            if not self.conflicted:
                raise
            # It wants an abort.
            self.env.count('commits after a conflict refused')
            return False
        writes = dict(self.writes)
        if writes:
            for name, v in sorted(self.reads.items()):
                world.judge('K01', world.current(name) == v,
                            'client %s commits although it has read version '
                            '%s of %s and the current one is %s',
                            self.number, v, name, world.current(name))
            world.apply(self, writes)
            self.env.count('commits')
        else:
            self.env.count('boundaries of transactions that change nothing')
        for name, obj in self.new.items():
            if name in loose:
                continue
            oid = obj._p_oid
            require(oid is not None, 'a new object has no oid after commit')
            for other in [n for n, x in world.oids.items() if x == oid]:
                require(other not in world.graph(),
                        'two objects share an oid: %s %s', name, other)
                # get() may give what is left of the old one, until the new
                # one has been reached by a reference.
                world.reused.add(name)
                self.env.count('oids used again')
                del world.oids[other]
            world.oids[name] = oid
        self.begin()
        return True

    def loose_ends(self):
        """New objects that were created and detached again."""
        linked = set()
        todo = [n for n in self.writes if n not in self.new]
        seen = set(todo)
        while todo:
            for kid in self.writes.get(todo.pop(), (0, ()))[1]:
                if kid in self.new and kid not in seen:
                    seen.add(kid)
                    todo.append(kid)
        loose = set(self.new) - seen
        for name in loose:
            self.writes.pop(name, None)
        return loose

    def abort(self):
        self.env.op(self.number, 'abort')
        self.connection.abort()
        self.env.count('aborts')
        self.begin()

    def verify(self):
        """Compare everything with the current state."""
        world = self.world
        seen = {}
        todo = [('root', self.connection.get_root())]
        graph = world.graph()
        while todo:
            name, obj = todo.pop()
            if name in seen:
                require(seen[name] is obj, 'there are two objects %s', name)
                continue
            seen[name] = obj
            v = get_v(obj)
            kids = get_kids(obj)
            self.touched.add(name)
            if not world.judges.isdisjoint(['K03', 'K07', 'K01']):
                equal((v, get_w(obj), sorted(kids)),
                      (world.current(name), world.current(name),
                       sorted(world.content[world.current(name)][1])),
                      'client %s, state of %s after commit %s',
                      self.number, name, world.commits)
            self.observe(name, v, kids)
            todo.extend(kids.items())
        equal(set(seen), graph, 'objects that client %s finds', self.number)
        self.env.count('states compared')


def choose(rng, world, client, packs):
    """-> an operation"""
    names = sorted(world.graph() | set(client.new))
    if rng.random() < 0.2:
        # What it sees, although it may have been removed meanwhile.
        seen = set()
        for v in client.reads.values():
            if v in world.content:
                seen.update(world.content[v][1])
        seen.update(world.graphs[client.boundary])
        seen -= world.graph()
        names = sorted(seen) or names
    weights = [1 + 3 * (n == names[0]) for n in names]
    name = rng.choices(names, weights)[0]
    way = rng.choice(['path', 'path', 'handle', 'handle', 'oid'])
    kinds = sorted(ODDS)
    kind = rng.choices(kinds, [
        ODDS[k] * world.odds[k] * (2 if packs and k == 'unlink' else 1)
        for k in kinds])[0]
    if kind == 'read':
        return 'read', name, way
    if kind == 'write':
        return 'write', name, way, rng.random() < 0.4
    if kind == 'create':
        return 'create', name, way, 0, rng.choice([Node, Node, Dict2])
    if kind == 'unlink':
        return 'unlink', name, way, rng.randrange(5)
    if kind == 'move':
        return ('move', name, rng.choice(names), rng.randrange(5),
                rng.random() < 0.7)
    if kind == 'crawl':
        return ('crawl', rng.choice([1, 2, 5, 100]), rng.random() < 0.3,
                rng.random() < 0.2, rng.choice([1, 2, 5, 100]),
                rng.random() < 0.7)
    return 'shrink',


def populate(rng, world, client):
    root = client.connection.get_root()
    v = world.fresh()
    root['v'] = v
    root['w'] = v
    root['kids'] = {}
    client.connection.commit()
    client.writes = {'root': (v, set())}
    world.oids['root'] = ROOT_OID
    world.apply(client, client.writes)
    client.begin()
    for _ in range(rng.choice([2, 5, 10, 25])):
        names = sorted(world.graph() | set(client.new))
        client.attempt(('create', rng.choice(names), 'handle', 0,
                        rng.choice([Node, Node, Dict2])))
    require(client.commit(), 'a conflict without other clients')


def clients(rng, env, judges, packs=False, gcbytes=0, steps=None, kinds=None):
    world = World(rng, env, judges, gcbytes, kinds)
    server = world.server
    number = rng.choice([1, 2, 2, 3, 3, 4, 6])
    first = Client(world, 0)
    world.clients.append(first)
    populate(rng, world, first)
    for n in range(1, number):
        world.clients.append(Client(world, n))
    retry = None
    for _ in range(steps or rng.choice([20, 60, 150])):
        server.check()
        if packs and server.packing and rng.random() < 0.5:
            if rng.random() < 0.1:
                env.op('end of the pack')
                server.finish_pack()
            else:
                env.op('pack steps', server.step(rng.choice([1, 1, 2, 3, 10])))
            env.count('moments within a pack')
        client = rng.choice(world.clients)
        p = rng.random()
        if client.conflicted:
            p2 = rng.random()
            if p2 < 0.15:
                client.commit()
                continue
            if p2 < 0.25:
                client.attempt(choose(rng, world, client, packs))
                continue
            work = list(client.work)
            client.abort()
            env.count('conflicts recovered from')
            if rng.random() < 0.4:
                redo(rng, world, client, work)
            continue
        if p < 0.74:
            client.attempt(choose(rng, world, client, packs))
        elif p < 0.88:
            if client.commit() and rng.random() < 0.3:
                client.verify()
        elif p < 0.94:
            client.abort()
            if rng.random() < 0.3:
                client.verify()
        elif p < 0.96:
            env.op(client.number, 'disconnects')
            client.close()
            client.connect()
            client.verify()
        elif packs and p < 0.995:
            env.op(client.number, 'asks for a pack')
            client.connection.pack()
            client.begin()
            env.count('packs requested')
            if rng.random() < 0.3:
                env.op('end of the pack')
                server.finish_pack()
        elif p > 0.995:
            env.op('restart')
            for c in world.clients:
                c.close()
            server.restart()
            for c in world.clients:
                c.connect()
            client.verify()
            env.count('restarts')
    if packs:
        server.finish_pack()
        env.count('packs finished', server.finished_packs)
        require(not server.failed_packs, 'a pack failed in the server')
    for c in world.clients:
        c.abort()
        c.verify()
    late = Client(world, len(world.clients))
    late.verify()
    late.close()
    if packs:
        reclaimed(rng, world, world.clients[0])
    for c in world.clients:
        c.close()
    server.stop()


def redo(rng, world, client, work):
    """The same work again, and nobody interferes."""
    world.env.op(client.number, 'does it again')
    for op in work:
        if op[0] == 'crawl':
            continue
        if not client.attempt(op):
            world.judge('K04', False, 'after abort() client %s gets another '
                        'conflict, without interference', client.number)
            return
    done = client.commit()
    world.judge('K04', done, 'after abort() client %s cannot commit, without '
                'interference', client.number)
    world.env.count('transactions repeated')


def reclaimed(rng, world, client):
    """Another pack, with nobody interfering, leaves what is reachable."""
    if world.kind == 'MemoryStorage':
        return
    server = world.server
    for c in world.clients:
        c.abort()
    client.connection.pack()
    server.finish_pack()
    client.begin()
    for c in world.clients:
        c.abort()
        c.verify()
        c.close()
    server.stop()
    storage = open_storage(world.kind, server.path)
    stored = set(oid for oid, record in storage.gen_oid_record())
    storage.close()
    server.start()
    for c in world.clients:
        c.connect()
    expected = set(world.oids[name] for name in world.graph())
    equal(sorted(stored), sorted(expected), 'oids in the storage after a pack')
    world.env.count('storages compared after a pack')


def views(prop):
    """The same without a server, which is faster."""
    def clients_in_process(rng, env):
        clients(rng, env, frozenset([prop]), kinds=['Shared'])
    return clients_in_process


serializable_views = views('K01')
snapshots_views = views('K02')
freshness_views = views('K03')
precision_views = views('K04')


def masses(rng, env):
    """Many objects change at once."""
    kind = rng.choice(['MemoryStorage'] + FILE_KINDS)
    server = Server(env, kind, env.fresh('db'), new_address(rng, env))
    connections = [
        Connection(server.client(), cache_size=rng.choice([10, 100, 100000]))
        for _ in range(rng.choice([2, 3]))]
    count = rng.choice([20, 300, 1000, 3000, 6000])
    env.op(kind, count, [c.get_cache_size() for c in connections])
    model = [0] * count
    root = connections[0].get_root()
    pages = (count + 99) // 100
    for page in range(pages):
        root[page] = PersistentList()
        for i in range(page * 100, min(count, page * 100 + 100)):
            node = Node()
            node.v = 0
            root[page].append(node)
    connections[0].commit()
    for c in connections[1:]:
        c.abort()
    # Since the last boundary of a client:
    stale = [set() for _ in connections] # changed by others
    seen = [set() for _ in connections] # accessed
    doomed = [set() for _ in connections] # first accessed, then changed
    def node(c, i):
        return c.get_root()[i // 100][i % 100]
    def boundary(n):
        stale[n].clear()
        seen[n].clear()
        doomed[n].clear()
    for step in range(rng.choice([4, 10, 20])):
        n = rng.randrange(len(connections))
        c = connections[n]
        size = min(count, int(10 ** rng.uniform(0, 4)))
        if rng.random() < 0.5:
            start = rng.randrange(count)
            chosen = [(start + i) % count for i in range(size)]
        else:
            chosen = rng.sample(range(count), size)
        what = rng.choice(['change', 'change', 'read', 'read all', 'abort',
                           'commit', 'crawl'])
        env.op(n, what, size, chosen[0])
        try:
            if what == 'change':
                # The pages never change.
                for i in chosen:
                    seen[n].add(i)
                    node(c, i).v = step + 1
                c.commit()
                require(not doomed[n], 'client %s commits although %s of the '
                        'objects that it has read have changed', n,
                        len(doomed[n]))
                for i in chosen:
                    model[i] = step + 1
                boundary(n)
                for other in range(len(connections)):
                    if other != n:
                        stale[other].update(chosen)
                        doomed[other].update(seen[other].intersection(chosen))
                env.count('objects changed in one commit', size)
            elif what == 'abort':
                c.abort()
                boundary(n)
            elif what == 'commit':
                c.commit()
                boundary(n)
            else:
                if rng.random() < 0.7:
                    c.abort()
                    boundary(n)
                if what == 'crawl':
                    values = dict((obj._p_oid, obj.v)
                                  for obj in c.get_crawler(
                                      batch_size=rng.choice([10, 1000, 10000]))
                                  if isinstance(obj, Node))
                    chosen = range(count)
                    get = lambda i: values[node(c, i)._p_oid]
                else:
                    if what == 'read all':
                        chosen = range(count)
                    get = lambda i: node(c, i).v
                fresh = not stale[n]
                wrong = []
                for i in chosen:
                    if get(i) != model[i]:
                        wrong.append(i)
                    seen[n].add(i)
                require(not wrong or not fresh, 'client %s reads outdated '
                        'versions of %s of %s objects', n, len(wrong),
                        len(chosen))
                env.count('objects compared', len(chosen))
        except ConflictError:
            env.count('conflicts')
            require(stale[n] if what == 'crawl' else stale[n] & seen[n],
                    'client %s gets a conflict although nothing that it has '
                    'accessed has changed', n)
            c.abort()
            boundary(n)
    for c in connections:
        c.abort()
        equal([node(c, i).v for i in range(count)], model, 'values at the end')
    for c in connections:
        c.get_storage().close()
    server.stop()


def serializable(rng, env):
    clients(rng, env, frozenset(['K01']))


def snapshots(rng, env):
    clients(rng, env, frozenset(['K02']))


def freshness(rng, env):
    clients(rng, env, frozenset(['K03']))


def precision(rng, env):
    clients(rng, env, frozenset(['K04']), packs=rng.random() < 0.2)


def packing(rng, env):
    kinds = ['MemoryStorage', 'FileStorage'] + FILE_KINDS
    clients(rng, env, ALL, packs=True, kinds=kinds)


# K01: the results of operations on containers are those of a serial execution.

CONTAINERS = ['dict', 'tree', 'set', 'list', 'cell']


def make_container(rng, kind):
    if kind == 'dict':
        return PersistentDict()
    if kind == 'tree':
        return BTree(rng.choice([BNode, BNode4, BNode16]))
    if kind == 'set':
        return PersistentSet()
    if kind == 'list':
        return PersistentList()
    x = Node()
    x.value = None
    return x


def make_model(kind):
    return {'dict': dict, 'tree': dict, 'set': set, 'list': list,
            'cell': lambda: [None]}[kind]()


def container_op(rng, kind, keys, value):
    key = rng.choice(keys)
    other = rng.choice(keys)
    n = rng.randrange(-3, 8)
    if kind in ('dict', 'tree'):
        ops = ['set', 'set', 'set', 'del', 'get', 'get', 'has', 'setdefault']
        if rng.random() < 0.2:
            ops = ['items', 'clear'] if rng.random() < 0.3 else ['items']
            if kind == 'tree':
                ops.append('range')
    elif kind == 'set':
        ops = ['add', 'add', 'discard', 'has', 'remove', 'all']
    elif kind == 'list':
        ops = ['append', 'insert', 'pop', 'item', 'assign', 'all']
    else:
        ops = ['read', 'write', 'blind']
    return kind, rng.choice(ops), key, other, n, value


def perform(op, x, model):
    """-> the result of the operation on a container or on its model"""
    kind, name, key, other, n, value = op
    try:
        if name == 'set':
            x[key] = value
        elif name == 'del':
            del x[key]
        elif name == 'get':
            return x.get(key)
        elif name == 'has':
            return key in x
        elif name == 'setdefault':
            return x.setdefault(key, value)
        elif name == 'items':
            return sorted(x.items())
        elif name == 'clear':
            x.clear()
        elif name == 'range':
            key, other = sorted([key, other])
            if model:
                return sorted((k, v) for k, v in x.items() if key <= k < other)
            return list(x.items_range(key, other))
        elif name == 'add':
            x.add(key)
        elif name == 'discard':
            x.discard(key)
        elif name == 'remove':
            x.remove(key)
        elif name == 'all':
            return sorted(x) if kind == 'set' else list(x)
        elif name == 'append':
            x.append(value)
        elif name == 'insert':
            x.insert(n, value)
        elif name == 'pop':
            return x.pop()
        elif name == 'item':
            return x[n]
        elif name == 'assign':
            x[n] = value
        elif name == 'read':
            return x[0] if model else x.value
        elif name == 'write':
            if model:
                x[0] = (value, hash(x[0]) % 1000003)
            else:
                x.value = (value, hash(x.value) % 1000003)
        elif name == 'blind':
            if model:
                x[0] = value
            else:
                x.value = value
        else:
            raise AssertionError(name)
    except (KeyError, IndexError) as e:
        return type(e).__name__


def operations(rng, env):
    kind = rng.choice(['MemoryStorage'] + FILE_KINDS)
    stored = []
    def count_commits(storage):
        end = storage.end
        def counting(*args, **kwargs):
            end(*args, **kwargs)
            stored.append(None)
        storage.end = counting
        return storage
    server = Server(env, kind, env.fresh('db'), new_address(rng, env),
                    wrap=count_commits)
    first = Connection(server.client())
    names = []
    models = {}
    for n in range(rng.choice([1, 2, 4])):
        which = rng.choice(CONTAINERS)
        name = '%s%d' % (which, n)
        names.append(name)
        first.get_root()[name] = make_container(rng, which)
        models[name] = make_model(which)
    first.commit()
    connections = [first]
    for _ in range(rng.choice([1, 2, 3])):
        connections.append(Connection(
            server.client(), cache_size=rng.choice([1, 5, 1000])))
    keys = list(range(rng.choice([3, 10, 40])))
    logs = [[] for _ in connections]
    serial = 0
    packing = rng.random() < 0.3
    env.op(kind, ' '.join(names), len(connections), len(keys))
    for _ in range(rng.choice([30, 100, 250])):
        server.check()
        c = rng.randrange(len(connections))
        connection = connections[c]
        p = rng.random()
        if p < 0.8:
            name = rng.choice(names)
            serial += 1
            op = container_op(rng, name.rstrip('0123456789'), keys, serial)
            env.op(c, name, *op[1:])
            try:
                result = perform(op, connection.get_root()[name], False)
            except ReadConflictError:
                env.count('read conflicts')
                logs[c] = []
                connection.abort()
                continue
            logs[c].append((name, op, result))
        elif p < 0.95:
            before = len(stored)
            try:
                connection.commit()
            except WriteConflictError:
                env.op(c, 'conflict')
                env.count('commits refused')
                logs[c] = []
                connection.abort()
                continue
            env.op(c, 'commit')
            if len(stored) > before:
                env.count('transactions that stored something')
                for name, op, result in logs[c]:
                    equal(result, perform(op, models[name], True),
                          'client %s, result of %s on %s in a transaction '
                          'that has been committed', c, op[1:], name)
                    env.count('results compared')
            logs[c] = []
        elif p < 0.98 or not packing:
            env.op(c, 'abort')
            connection.abort()
            logs[c] = []
        else:
            env.op(c, 'pack')
            connection.pack()
            server.finish_pack()
            logs[c] = []
    for connection in connections + [Connection(server.client())]:
        connection.abort()
        for name in names:
            which = name.rstrip('0123456789')
            all_of_it = {'dict': 'items', 'tree': 'items', 'cell': 'read'}.get(
                which, 'all')
            op = which, all_of_it, 0, 0, 0, 0
            equal(perform(op, connection.get_root()[name], False),
                  perform(op, models[name], True), 'contents of %s', name)
        env.count('states compared')
    for connection in connections:
        connection.get_storage().close()
    server.stop()
