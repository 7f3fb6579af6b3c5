"""
Programs on connections: C01 commit/abort, C02 identity, C03 change tracking,
C04 cache, C05 references, C09 failed commits, C10 computed attributes.
"""
from itertools import islice
import gc
import os
import weakref

from durus.connection import Connection
from durus.persistent import PersistentObject
from durus.storage import MemoryStorage
from durus.utils import str_to_int8
import durus.connection

from vlib import classes
from vlib.case import Violation, require, equal
from vlib.storages import FILE_KINDS, open_storage
from vlib.twins import Twins, M, canon_real, canon_model, compare, KINDS
from vlib.twins import reachable, describe_real


class Program(object):
    """A database, a connection to it, and a program that uses it."""

    def __init__(self, rng, env, kinds=FILE_KINDS + ['MemoryStorage'],
                 cache_sizes=(1, 2, 3, 5, 20, 100000), **kwargs):
        self.rng = rng
        self.env = env
        self.kind = rng.choice(kinds)
        self.cache_size = rng.choice(cache_sizes)
        self.root_class = rng.choice([None, None, classes.Dict2])
        self.path = env.fresh('db')
        env.op('open', self.kind, self.cache_size)
        env.count('histories on ' + self.kind)
        if self.kind == 'MemoryStorage':
            self.storage = MemoryStorage()
        else:
            self.storage = open_storage(self.kind, self.path)
        env.cleanup(self.close)
        self.connection = Connection(self.storage, cache_size=self.cache_size,
                                     root_class=self.root_class)
        self.twins = Twins(rng, env, self.connection, **kwargs)
        if self.root_class is not None:
            self.twins.root.kind = 'dict2'

    def close(self):
        if self.storage is not None:
            self.storage.close()
            self.storage = None

    def commit(self):
        self.env.op('commit')
        self.connection.commit()
        self.twins.commit_model()
        self.env.count('commits')

    def abort(self):
        self.env.op('abort')
        self.connection.abort()
        self.twins.abort_model()
        self.env.count('aborts')

    def pack(self):
        self.env.op('pack')
        self.twins.abort_model()
        self.twins.drop_unreachable()
        self.connection.pack()
        self.env.count('packs')

    def reopen(self, repair=False):
        """Uncommitted changes are lost."""
        if self.kind == 'MemoryStorage':
            return
        self.env.op('reopen')
        self.close()
        kwargs = dict(repair=True) if repair else {}
        self.storage = open_storage(self.kind, self.path, **kwargs)
        self.connection = Connection(
            self.storage, cache_size=self.cache_size,
            root_class=self.rng.choice([None, self.root_class]))
        self.twins.abort_model()
        self.twins.attach(self.connection)
        # Handles of new objects may refer to objects of the old connection.
        for m in list(self.twins.real):
            if m not in self.twins.stored:
                del self.twins.real[m]
        self.twins.changed.clear()
        self.env.count('reopens')

    def check_new_connection(self):
        other = Connection(self.storage, cache_size=100000)
        model = self.twins.root
        saved = {}
        # The new connection sees the committed state.
        for m, data in self.twins.stored.items():
            saved[m] = m.data
            m.data = data
        try:
            self.twins.check('a new connection sees something else than '
                             'what has been committed', other)
        finally:
            for m, data in saved.items():
                m.data = data


def run_program(program, steps, probability=0.5):
    rng, twins, env = program.rng, program.twins, program.env
    twins.populate(rng.choice([0, 1, 5, 15]))
    for step in range(steps):
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
            twins.mutate()
            if rng.random() < 0.08:
                twins.check('the connection does not see its own changes')
            if rng.random() < 0.05:
                twins.forget(0.5)
        n = rng.random()
        if n < 0.6:
            program.commit()
            if rng.random() < probability:
                program.check_new_connection()
        elif n < 0.8:
            program.abort()
            if rng.random() < probability:
                twins.check('abort() did not restore the committed state')
        elif n < 0.87:
            program.pack()
            if rng.random() < probability:
                program.check_new_connection()
                twins.check('the state has changed by packing')
        elif n < 0.94:
            program.reopen()
            if rng.random() < probability:
                twins.check('the reopened database has another state')
        else:
            env.op('nothing')
        if rng.random() < 0.3:
            twins.forget(rng.choice([0, 0.3]))
        if rng.random() < 0.1:
            gc.collect()


def commit_abort(rng, env):
    program = Program(rng, env)
    run_program(program, rng.randrange(3, 25))
    twins = program.twins
    twins.check('the connection does not see its own changes')
    program.commit()
    twins.check('after commit() the state is another one')
    program.check_new_connection()
    program.reopen()
    twins.check('the reopened database has another state')
    env.count('objects in final graphs', len(reachable([twins.root])))
    env.nontrivial = len(twins.stored) > 2


# C02

def live_objects(connection):
    return [x for x in gc.get_objects()
            if isinstance(x, PersistentObject) and
            x._p_connection is connection and x._p_oid is not None]


def check_identity(env, connection, held):
    """held: {oid: object} that the program holds."""
    for oid, obj in held.items():
        require(connection.get(oid) is obj, 'get(%r) gives another object '
                'than %r', oid, obj)
        env.count('identities checked')


def identity(rng, env):
    program = Program(rng, env)
    twins = program.twins
    twins.populate(rng.choice([3, 10]))
    program.commit()
    held = {}
    removed = {}
    for step in range(rng.randrange(5, 25)):
        for _ in range(rng.randrange(4)):
            twins.mutate()
        twins.forget(rng.choice([0, 0.2, 1]))
        n = rng.randrange(10)
        if n < 4:
            program.commit()
        elif n < 6:
            program.abort()
        elif n == 6:
            env.op('gc')
            gc.collect()
        elif n == 7:
            env.op('shrink')
            program.connection.shrink_cache()
        elif n == 8:
            program.pack()
            held.clear()
            # What the pack has removed is no longer an object of the
            # database, even if it is still in memory.
            for obj in live_objects(program.connection):
                try:
                    program.storage.load(obj._p_oid)
                except KeyError:
                    removed[id(obj)] = weakref.ref(obj)
        else:
            env.op('new size')
            program.connection.set_cache_size(rng.choice([1, 2, 10, 1000]))
        connection = program.connection
        # Navigation from the root.
        mapping = twins.pairs()
        for m, obj in mapping.items():
            if m in twins.real:
                require(twins.real[m] is obj, 'navigation from the root leads '
                        'to another object than the one held: %r %r',
                        obj, twins.real[m])
                env.count('identities checked')
            if obj._p_oid is not None:
                if obj._p_oid in held:
                    require(held[obj._p_oid] is obj, 'navigation leads to '
                            'another object with the oid of %r', obj)
                    env.count('identities checked')
                elif rng.random() < 0.3:
                    held[obj._p_oid] = obj
        twins.check('the connection shows something else than the model')
        check_identity(env, connection, held)
        if rng.random() < 0.5 and not twins.connection.changed:
            size = rng.choice([1, 3, 100])
            for obj in connection.get_crawler(batch_size=size):
                if obj._p_oid in held:
                    require(held[obj._p_oid] is obj,
                            'crawling gives another object for %r', obj)
                    env.count('identities checked')
        if rng.random() < 0.3:
            oids = {}
            for obj in live_objects(connection):
                if id(obj) in removed and removed[id(obj)]() is obj:
                    continue
                other = oids.setdefault(obj._p_oid, obj)
                require(other is obj, 'two live objects have the oid %r: %r '
                        'and %r', obj._p_oid, obj, other)
                env.count('live objects checked')
            oids.clear()
        del mapping
        for oid in list(held):
            if rng.random() < 0.2:
                del held[oid]
    env.nontrivial = len(twins.stored) > 3


def neighbours(obj):
    """The persistent objects in the state of this one."""
    result = []
    def collect(value):
        if isinstance(value, PersistentObject):
            result.append(value)
        elif isinstance(value, dict):
            for k, v in value.items():
                collect(k)
                collect(v)
        elif isinstance(value, (list, tuple, set, frozenset)):
            for v in value:
                collect(v)
    collect(obj.__getstate__())
    return result


class Registry(object):
    """All objects that have been seen, and that are still there."""

    def __init__(self, env):
        self.env = env
        self.refs = {}

    def see(self, obj, where):
        if obj is None or obj._p_oid is None:
            return
        known = self.refs.get(obj._p_oid)
        known = known and known()
        if known is None:
            self.refs[obj._p_oid] = weakref.ref(obj)
        else:
            require(known is obj, '%s gives another object for %r than '
                    'the one in use', where, obj)
            self.env.count('identities checked')

    def scan(self, connection):
        for obj in live_objects(connection):
            self.see(obj, 'memory contains two live objects: it')
            self.env.count('live objects checked')


def entrances(rng, env):
    """Objects of a graph with cycles are reached on all ways there are."""
    from durus.connection import gen_every_instance
    program = Program(rng, env, cache_sizes=(1, 2, 5, 1000))
    twins = program.twins
    twins.populate(rng.choice([3, 10, 30]))
    for m in list(reachable([twins.root])):
        if m.kind == 'node' and rng.random() < 0.5:
            real = twins.handle(m)
            for name in rng.sample(['me', 'link', 'list'], 2):
                other = m if name == 'me' else rng.choice(
                    [x for x in reachable([twins.root]) if x.kind == 'node'])
                if name == 'list':
                    m.data['list'] = [other]
                    real.list = [twins.handle(other)]
                else:
                    m.data[name] = other
                    setattr(real, name, twins.handle(other))
    program.commit()
    program.connection.commit()
    oids = [record[0] for record in program.storage.gen_oid_record(
        start_oid=durus.connection.ROOT_OID)]
    twins.forget()
    for _ in range(rng.choice([1, 2, 3])):
        connection = Connection(program.storage, cache_size=rng.choice(
            [1, 2, 5, 1000]))
        env.op('connection', connection.get_cache_size(), len(oids))
        registry = Registry(env)
        held = []
        crawlers = []
        for step in range(rng.randrange(5, 60)):
            n = rng.randrange(13)
            obj = None
            if n < 3:
                oid = rng.choice(oids)
                env.op('get', oid)
                if rng.random() < 0.3:
                    obj = connection.get(str_to_int8(oid))
                elif rng.random() < 0.3:
                    obj = connection[oid]
                else:
                    obj = connection.get(oid)
                require(obj is not None and obj._p_oid == oid,
                        'get(%r) gives %r', oid, obj)
                registry.see(obj, 'get()')
            elif n < 6 and held:
                obj = rng.choice(held)
                env.op('neighbours', obj)
                for other in neighbours(obj):
                    registry.see(other, 'a reference in %r' % obj)
                    if rng.random() < 0.3:
                        held.append(other)
            elif n == 6:
                env.op('root')
                registry.see(connection.get_root(), 'get_root()')
                held.append(connection.get_root())
            elif n == 7:
                env.op('crawler')
                crawlers.append(connection.get_crawler(
                    start_oid=rng.choice(oids),
                    batch_size=rng.choice([1, 2, 100])))
                env.count('crawlers')
            elif n == 8 and crawlers:
                crawler = rng.choice(crawlers)
                env.op('crawl')
                for obj in islice(crawler, rng.choice([1, 3, 1000])):
                    registry.see(obj, 'a crawler')
                    if rng.random() < 0.2:
                        held.append(obj)
            elif n == 9:
                env.op('instances')
                klass = rng.choice([PersistentObject, classes.Node])
                for obj in gen_every_instance(connection, klass):
                    registry.see(obj, 'gen_every_instance()')
                    if rng.random() < 0.2:
                        held.append(obj)
            elif n == 10:
                env.op('forget')
                rng.shuffle(held)
                del held[rng.randrange(len(held) + 1):]
                obj = other = None
                if rng.random() < 0.3:
                    gc.collect()
            elif n == 11:
                env.op('end')
                rng.choice([connection.abort, connection.commit])()
            elif held:
                obj = rng.choice(held)
                if obj._p_is_saved():
                    env.op('ghost', obj)
                    obj._p_set_status_ghost()
            if obj is not None and rng.random() < 0.5:
                held.append(obj)
            if rng.random() < 0.15:
                registry.scan(connection)
        registry.scan(connection)
        del obj, held, crawlers
    env.nontrivial = len(oids) > 3


def identity_with_others(rng, env):
    """Another connection changes what this one has loaded."""
    from durus.error import ConflictError
    from vlib.storages import Shared
    shared = Shared()
    a = Connection(shared.view(), cache_size=rng.choice([1, 2, 10, 1000]))
    b = Connection(shared.view(), cache_size=rng.choice([1, 1000]))
    count = rng.choice([3, 8, 20])
    root = a.get_root()
    for i in range(count):
        root[i] = classes.Node()
        root[i].next = root.get(rng.randrange(count))
        root[i].value = 0
    a.commit()
    b.abort()
    env.op('nodes', count, a.get_cache_size())
    held = {}
    for step in range(rng.randrange(5, 40)):
        env.op('step')
        try:
            for _ in range(rng.randrange(4)):
                i, j = rng.randrange(count), rng.randrange(count)
                env.op('b', i, j)
                n = rng.randrange(3)
                if n == 0:
                    b.get_root()[i].next = b.get_root()[j]
                elif n == 1:
                    b.get_root()[i].value += 1
                else:
                    b.get_root()[i] = b.get_root()[j]
            if rng.random() < 0.8:
                b.commit()
        except ConflictError:
            b.abort()
        try:
            for _ in range(rng.randrange(5)):
                i = rng.randrange(count)
                obj = a.get_root()[i]
                for _ in range(rng.randrange(4)):
                    env.op('a', i)
                    if obj is None:
                        break
                    oid = obj._p_oid
                    if oid in held:
                        require(held[oid] is obj, 'navigation leads to '
                                'another object with the oid of %r', obj)
                        env.count('identities checked')
                    elif rng.random() < 0.5:
                        held[oid] = obj
                    obj = obj.next
            if rng.random() < 0.3:
                a.get_root()[rng.randrange(count)].value = step
            check_identity(env, a, held)
            if rng.random() < 0.7:
                a.commit()
            else:
                a.abort()
        except ConflictError:
            env.op('conflict')
            env.count('conflicts')
            check_identity(env, a, dict((k, v) for k, v in held.items()
                                        if not v._p_is_ghost()))
            a.abort()
        check_identity(env, a, held)
        if rng.random() < 0.3:
            gc.collect()
        for obj in a.get_crawler():
            if obj._p_oid in held:
                require(held[obj._p_oid] is obj,
                        'crawling gives another object for %r', obj)
        oids = {}
        for obj in live_objects(a):
            other = oids.setdefault(obj._p_oid, obj)
            require(other is obj, 'two live objects have the oid %r',
                    obj._p_oid)
        oids.clear()
        obj = None
        for oid in list(held):
            if rng.random() < 0.15:
                del held[oid]
        b.abort()
        a.abort()


# C04

class Loner(classes.Node):
    pass


def cache_bound(rng, env):
    size = rng.choice([1, 2, 5, 20, 50, 100])
    storage = MemoryStorage()
    maker = Connection(storage)
    count = rng.choice([30, 150, 400])
    shape = rng.choice(['flat', 'chain', 'ring', 'tree', 'btree', 'random'])
    root = maker.get_root()
    nodes = [classes.Node() for _ in range(count)]
    for i, node in enumerate(nodes):
        node.value = i
        if shape == 'flat':
            root[i] = node
        elif shape in ('chain', 'ring'):
            node.next = nodes[(i + 1) % count] \
                if i < count - 1 or shape == 'ring' else None
        elif shape == 'tree':
            node.children = [nodes[j] for j in (2 * i + 1, 2 * i + 2)
                             if j < count]
        elif shape == 'random':
            node.others = [nodes[rng.randrange(count)] for _ in range(3)]
            node.next = nodes[(i + 1) % count]
    if shape == 'btree':
        root['tree'] = classes.BTree(classes.BNode)
        for i, node in enumerate(nodes):
            root['tree'][i] = node
    elif shape != 'flat':
        root['first'] = nodes[0]
    maker.commit()
    env.op(shape, count, size)
    connection = Connection(storage, cache_size=size)
    other = Connection(storage, cache_size=size * 3)
    for _ in range(rng.randrange(1, 6)):
        # Use many objects.
        seen = 0
        changed = 0
        model = rng.random() < 0.5
        todo = [connection.get_root()]
        done = set()
        while todo:
            obj = todo.pop()
            if obj._p_oid in done:
                continue
            done.add(obj._p_oid)
            refs = []
            if isinstance(obj, classes.Node):
                refs = [getattr(obj, 'next', None)] + \
                    getattr(obj, 'children', []) + getattr(obj, 'others', [])
                seen += 1
                if model and rng.random() < 0.1:
                    obj.touched = True
                    changed += 1
            elif isinstance(obj, classes.BTree):
                refs = list(obj.values())
            else:
                refs = list(obj.values())
            todo.extend(x for x in refs if x is not None)
        obj = refs = None
        require(seen == count, '%d of %d objects seen', seen, count)
        peak = connection.get_cache_count()
        env.op('used', seen, changed)
        n = rng.choice([0, 1, 2])
        if n == 0:
            connection.commit()
        elif n == 1:
            connection.abort()
        else:
            connection.commit()
        # No references are held any more: a bounded number of transactions
        # brings the cache back to its size.
        need = None
        for step in range(40):
            if step % 2:
                connection.abort()
            else:
                connection.commit()
            if step % 3 == 0:
                gc.collect()
            if connection.get_cache_count() <= max(size, 1):
                need = step + 1
                break
        env.count('peak objects', peak)
        env.count('transactions until the cache was small', need or 40)
        live = len(set(x._p_oid for x in live_objects(connection)))
        require(need is not None, 'after 40 transactions without references '
                'there are %d objects in the cache (%d alive), its size is '
                '%d (%s of %d)', connection.get_cache_count(), live, size,
                shape, count)
        env.count('cache bounds checked')


def cache_programs(rng, env):
    """Programs with a tiny cache: the model has the results of an infinite
    one."""
    program = Program(rng, env, cache_sizes=(1, 1, 2, 3))
    twins = program.twins
    twins.populate(rng.choice([5, 15]))
    for step in range(rng.randrange(5, 25)):
        for _ in range(rng.randrange(7)):
            twins.mutate()
            if rng.random() < 0.3:
                env.op('forget')
                twins.forget(0)
            if rng.random() < 0.15:
                env.op('shrink')
                program.connection.shrink_cache()
                env.count('shrinking amid changes')
            if rng.random() < 0.1:
                gc.collect()
        if rng.random() < 0.2:
            program.connection.set_cache_size(rng.choice([1, 2, 50]))
        n = rng.random()
        if n < 0.5:
            program.commit()
        elif n < 0.7:
            program.abort()
        elif n < 0.8:
            program.pack()
        if rng.random() < 0.7:
            twins.forget(0)
        if rng.random() < 0.5:
            twins.check('with a small cache the state is another one')
    program.commit()
    program.check_new_connection()
    env.nontrivial = len(twins.stored) > 3


# C09

class Unpicklable(object):
    def __reduce__(self):
        raise ValueError('this can not be pickled')


class FailingStorage(object):
    """Makes one call of a storage fail, now and then."""

    def __init__(self, storage, rng):
        self.storage = storage
        self.armed = None
        self.rng = rng
        self.calls = 0
        self.allocated = []
        begin, store, end, new_oid = (storage.begin, storage.store,
                                      storage.end, storage.new_oid)
        def fail(name):
            if self.armed is not None and self.armed[0] == name:
                if self.armed[1] == 0:
                    self.armed = None
                    raise InjectedFailure(name)
                self.armed = name, self.armed[1] - 1
        def begin2():
            fail('begin')
            return begin()
        def store2(oid, record):
            fail('store')
            return store(oid, record)
        def end2(handle_invalidations=None):
            fail('end')
            # What the storage calls itself does not fail.
            armed, self.armed = self.armed, None
            try:
                return end(handle_invalidations)
            finally:
                self.armed = armed
        def new_oid2():
            fail('new_oid')
            self.allocated.append(new_oid())
            return self.allocated[-1]
        storage.begin, storage.store, storage.end, storage.new_oid = (
            begin2, store2, end2, new_oid2)


class InjectedFailure(Exception):
    pass


class Poison(Exception):
    pass


class PoisonNode(classes.Node):
    """Its state can't be read while it is poisoned."""
    poisoned = False

    def __getstate__(self):
        if PoisonNode.poisoned:
            raise Poison
        return classes.Node.__getstate__(self)


def failed_commit(rng, env):
    program = Program(rng, env)
    twins = program.twins
    failing = FailingStorage(program.storage, rng)
    twins.populate(rng.choice([1, 4, 8]))
    program.commit()
    for step in range(rng.randrange(3, 15)):
        for _ in range(rng.randrange(1, 7)):
            twins.mutate()
        n = rng.randrange(7)
        recover = rng.choice(['abort', 'abort', 'fix'])
        undo = None
        if n == 0:
            program.commit()
            program.check_new_connection()
            continue
        # Add something that makes the commit fail.
        how = ['value', 'other connection', 'storage', 'poison', 'lambda',
               'new graph'][n - 1]
        env.op('failing commit', how, recover)
        target_m = twins.root
        target = twins.handle(target_m)
        candidates = [m for m in twins.known() if m.kind in
                      ('pdict', 'node', 'leaf') and twins.handle(m) is not None]
        if candidates:
            target_m = rng.choice(candidates)
            target = twins.handle(target_m)
        def link(value, model=None):
            twins.note_change(target_m)
            if model is not None:
                target_m.data['poison'] = model
            if target_m.kind in ('node', 'leaf'):
                target.poison = value
            else:
                target['poison'] = value
            def undo():
                twins.note_change(target_m)
                target_m.data.pop('poison', None)
                if target_m.kind in ('node', 'leaf'):
                    del target.poison
                else:
                    del target['poison']
            return undo
        reachable_target = (target_m in twins.stored or
                            target_m in reachable([twins.root]))
        # The new objects that come along with it.
        fresh = twins.create('node')
        fresh_real = twins.real[fresh]
        fresh.data['n'] = step
        fresh_real.n = step
        if how == 'storage':
            undo = link(fresh_real, fresh)
            failing.armed = (rng.choice(['begin', 'store', 'end', 'new_oid']),
                             rng.choice([0, 0, 1, 2, 4]))
        elif how == 'value':
            undo = link([fresh_real, Unpicklable()])
        elif how == 'lambda':
            undo = link([fresh_real, lambda: None])
        elif how == 'other connection':
            other = Connection(MemoryStorage())
            other.get_root()['x'] = stranger = classes.Node()
            other.commit()
            undo = link([fresh_real, stranger, twins_new(twins)])
        elif how == 'poison':
            poison = PoisonNode()
            poison.child = fresh_real
            undo = link([poison, classes.PersistentList([fresh_real])])
            PoisonNode.poisoned = True
        else:
            poison = classes.Node()
            poison.a = fresh_real
            poison.b = [classes.Node(), classes.PersistentDict(x=Unpicklable())]
            undo = link(poison)
        del failing.allocated[:]
        try:
            program.connection.commit()
        except (InjectedFailure, ValueError, Poison, AttributeError,
                TypeError) as e:
            env.op('failed', type(e).__name__)
            env.count('failed commits')
            env.count('failed commits by ' + how)
            failed = True
        except Exception as e:
            # e.g. pickle.PicklingError
            require(type(e).__name__ == 'PicklingError',
                    'commit raised %r', e)
            env.count('failed commits')
            env.count('failed commits by ' + how)
            failed = True
        else:
            failed = False
        failing.armed = None
        program.connection.new_oid = program.storage.new_oid
        PoisonNode.poisoned = False
        if failed:
            # Nothing of it is visible elsewhere.
            for oid in failing.allocated:
                # (It may be an object that a pack has removed.)
                found = program.connection.get(oid)
                require(found is None or found._p_oid == oid, 'there is a new '
                        'object at the oid %r, which was only used in a '
                        'commit that failed', oid)
                found = None
                env.count('oids of failed commits')
            program.check_new_connection()
            check_references(env, program.storage)
        if not failed:
            require(how == 'storage' or not reachable_target or
                    target_m not in twins.stored,
                    'a commit with an impossible value succeeded (%s)', how)
            # Either nothing could fail, or what fails is not reachable.
            twins.commit_model()
            program.check_new_connection()
            undo()
            program.commit()
        elif recover == 'abort':
            program.abort()
            if target_m not in twins.stored:
                undo() # It is still new, abort() does not concern it.
            twins.check('abort() after a failed commit did not restore the '
                        'committed state')
        else:
            undo()
            program.commit()
        program.check_new_connection()
        # The objects that came along are still new.
        require(fresh_real.n == step, 'a new object lost its state')
        if rng.random() < 0.6:
            env.op('link the new object')
            key = 'fresh%d' % rng.randrange(4)
            twins.root.data[key] = fresh
            twins.handle(twins.root)[key] = fresh_real
            twins.note_change(twins.root)
            program.commit()
            program.check_new_connection()
            env.count('objects linked after a failed commit')
        check_references(env, program.storage)
        if rng.random() < 0.2:
            twins.forget(0.3)
        if rng.random() < 0.15:
            program.pack()
            check_references(env, program.storage)
        if rng.random() < 0.15:
            program.reopen()
            failing = FailingStorage(program.storage, rng)
            twins.check('the reopened database has another state')
    program.commit()
    program.check_new_connection()
    check_references(env, program.storage)
    program.reopen()
    twins.check('the reopened database has another state')


def twins_new(twins):
    m = twins.create('node')
    return twins.real[m]


def check_references(env, storage):
    """No reachable record refers to an object that is not stored."""
    from vlib.records import scan
    scan(storage)
    env.count('reference scans')


def conflict_commit(rng, env):
    """Commits that fail because of a conflict."""
    from durus.error import ConflictError
    from vlib.storages import Shared
    from vlib.records import scan
    shared = Shared()
    a = Connection(shared.view(), cache_size=rng.choice([1, 3, 1000]))
    b = Connection(shared.view())
    root = a.get_root()
    for i in range(6):
        root[i] = classes.PersistentDict(n=0)
    a.commit()
    b.abort()
    model = dict((i, {'n': 0}) for i in range(6)) # committed
    pending = []
    for step in range(rng.randrange(3, 15)):
        env.op('step')
        fresh = classes.PersistentDict(n=step)
        fresh['inner'] = classes.PersistentList([step])
        i, j = rng.randrange(6), rng.randrange(6)
        work = dict((k, dict(v)) for k, v in model.items())
        a.get_root()[i]['fresh'] = fresh
        a.get_root()[i]['n'] = step
        work[i]['fresh'] = step
        work[i]['n'] = step
        if rng.random() < 0.5:
            a.get_root()[j]['n'] = -step
            work[j]['n'] = -step
        # b interferes.
        k = rng.choice([i, j, rng.randrange(6)])
        b.get_root()[k]['b'] = step
        b.commit()
        model[k]['b'] = step
        env.op(i, j, k)
        recover = True
        try:
            a.commit()
            model = work
            require(k not in (i, j) or k == j and not a,
                    'no conflict') if k == i else None
            model[k]['b'] = step
        except ConflictError:
            env.op('conflict')
            env.count('conflicts')
            # The connection is unusable until abort().
            try:
                a.get_root()[i]['n'] = 12345
                a.commit()
            except Exception:
                env.count('commits refused before abort')
            else:
                raise Violation('a commit after a conflict, without abort(), '
                                'succeeded')
            a.abort()
            require(fresh['n'] == step and list(fresh['inner']) == [step],
                    'a new object lost its state')
            env.count('failed commits')
            if rng.random() < 0.7:
                # Try again.
                a.get_root()[i]['fresh'] = fresh
                a.get_root()[i]['n'] = step
                a.commit()
                model[i]['fresh'] = step
                model[i]['n'] = step
                env.count('objects linked after a failed commit')
        scan(a.get_storage(), shared)
        c = Connection(shared.view())
        observed = {}
        for n, d in c.get_root().items():
            observed[n] = dict(d)
            if 'fresh' in d:
                equal(list(d['fresh']['inner']), [d['fresh']['n']], 'inner')
                observed[n]['fresh'] = d['fresh']['n']
        c.get_storage().close()
        equal(observed, model, 'committed state')
        b.abort()
        a.abort()


# C10

def computed(rng, env):
    from durus.error import ConflictError
    from vlib.storages import Shared
    shared = Shared()
    views = [shared.view() for _ in range(rng.choice([2, 3]))]
    connections = [Connection(v, cache_size=rng.choice([1, 1, 3, 1000]))
                   for v in views]
    count = rng.choice([1, 3])
    first = connections[0].get_root()
    for i in range(count):
        first[i] = rng.choice([classes.Computed, ComputedAttribute])()
        first['source%d' % i] = classes.PersistentDict(n=0)
    first['filler'] = classes.PersistentList(
        [classes.Node() for _ in range(5)])
    connections[0].commit()
    for c in connections:
        c.abort()
    env.op('connections', len(connections), count)
    # Per connection and attribute: what it holds.  stale: an invalidation
    # was committed by another one, after the boundary of this connection.
    NONE = object()
    hold = [dict((x._p_oid, x) for x in ())] * len(connections)
    handles = [[c.get_root()[i] for i in range(count)]
               if rng.random() < 0.7 else None for c in connections]
    computed_at = [dict() for _ in connections] # attribute -> commit number
    invalid_at = [0] * count # number of the last committed invalidation
    boundary = [0] * len(connections)
    pending = [set() for _ in connections]
    commits = 0
    serial = 0
    for step in range(rng.randrange(10, 80)):
        n = rng.randrange(len(connections))
        c = connections[n]
        i = rng.randrange(count)
        def attribute():
            return handles[n][i] if handles[n] else c.get_root()[i]
        action = rng.randrange(10)
        try:
            if action < 5:
                serial += 1
                value = ('value', serial)
                calls = []
                def compute():
                    calls.append(1)
                    return value
                stores = views[n].stores
                result = attribute().get(compute)
                require(len(calls) <= 1, 'computed %d times', len(calls))
                env.op('get', n, i, len(calls))
                env.count('get() calls')
                if calls:
                    equal(result, value, 'get() after computing')
                    computed_at[n][i] = (commits, value, boundary[n])
                    env.count('computations')
                else:
                    require(i in computed_at[n], 'a value that was never '
                            'computed: %r', result)
                    when, kept, b = computed_at[n][i]
                    equal(result, kept, 'kept value')
                    # Told of at a boundary after it was computed?
                    require(when == 'own' or
                            not (invalid_at[i] > when and
                                 boundary[n] >= invalid_at[i]),
                            'a value computed at commit %d is returned after '
                            'a boundary at commit %d, an invalidation was '
                            'committed at %d', when, boundary[n],
                            invalid_at[i])
                    require(i not in pending[n] or when == 'own',
                            'a value from before invalidate()')
                    env.count('kept values')
                equal(views[n].stores, stores, 'stores')
                if i in pending[n] and calls:
                    computed_at[n][i] = ('own', value, boundary[n])
                # Asking again gives the same, without computing.
                again = attribute().get(lambda: 1 / 0)
                equal(again, result, 'second get() in a row')
            elif action == 5:
                env.op('invalidate', n, i)
                attribute().invalidate()
                pending[n].add(i)
                computed_at[n].pop(i, None)
            elif action == 6:
                env.op('abort', n)
                c.abort()
                for j in pending[n]:
                    computed_at[n].pop(j, None)
                pending[n].clear()
                boundary[n] = commits
            else:
                env.op('commit', n)
                stores = views[n].stores
                if rng.random() < 0.2:
                    c.get_root()['source%d' % i]['n'] = step
                    wrote = 1
                else:
                    wrote = 0
                c.commit()
                expected = wrote + len(pending[n])
                equal(views[n].stores - stores, expected,
                      'number of records stored')
                if expected:
                    commits += 1
                for j in pending[n]:
                    invalid_at[j] = commits
                    # A value computed after the own invalidate() is good.
                    if j in computed_at[n]:
                        computed_at[n][j] = (commits,) + computed_at[n][j][1:]
                    env.count('invalidations committed')
                pending[n].clear()
                boundary[n] = commits
        except ConflictError:
            env.op('conflict', n)
            env.count('conflicts')
            c.abort()
            for j in pending[n]:
                computed_at[n].pop(j, None)
            pending[n].clear()
            boundary[n] = commits
        if handles[n] is None and rng.random() < 0.2:
            c.shrink_cache()
        if c.get_cache_size() < 10 and handles[n] is None:
            pass


from durus.persistent import ComputedAttribute


FAMILIES = [
    [classes.Node, classes.Leaf, classes.SubNode, classes.SubSubNode],
    [classes.Slotted, classes.SlottedChild, classes.Mixed, classes.MixedSlots],
    [classes.PersistentDict, classes.Dict2, classes.Node, classes.OneSlot],
]


def label_of(obj):
    if isinstance(obj, classes.PersistentDict):
        return obj['label']
    elif isinstance(obj, classes.OneSlot):
        return obj.single
    elif isinstance(obj, classes.Slotted):
        return obj.a
    return obj.label


def set_label(obj, label):
    if isinstance(obj, classes.PersistentDict):
        obj['label'] = label
    elif isinstance(obj, classes.OneSlot):
        obj.single = label
    elif isinstance(obj, classes.Slotted):
        obj.a = label
    else:
        obj.label = label


def reused_oids(rng, env):
    """
    Oids of objects that a pack removed are used again, for objects of other
    classes, while programs still hold what is left of the old objects.
    """
    from durus.connection import gen_every_instance
    from vlib.server import Server, new_address
    server = Server(env, 'FileStorage', env.fresh('db'),
                    new_address(rng, env, ['unix']))
    env.cleanup(server.stop)
    writer = Connection(server.client(), cache_size=rng.choice([2, 1000]))
    readers = [Connection(server.client(), cache_size=rng.choice([1, 3, 1000]))
               for _ in range(rng.choice([1, 2]))]
    family = rng.choice(FAMILIES)
    expected = {} # name -> class, label
    oids = {}
    used = set()
    held = []
    serial = 0
    root = writer.get_root()
    for turn in range(rng.choice([2, 3, 4])):
        for _ in range(rng.choice([3, 10, 40])):
            klass = rng.choice(family)
            obj = klass()
            serial += 1
            name = 'x%s' % rng.randrange(30)
            set_label(obj, serial)
            env.op('create', name, klass.__name__)
            root[name] = obj
            expected[name] = klass, serial
            oids.pop(name, None)
        obj = None
        writer.commit()
        for name in expected:
            if name not in oids:
                oids[name] = root[name]._p_oid
                if oids[name] in used:
                    env.count('oids used again')
                used.add(oids[name])
        for connection in readers + [writer]:
            # The writer has seen nothing of the others.
            if connection is not writer or rng.random() < 0.3:
                env.op('abort', readers.index(connection)
                       if connection is not writer else 'writer')
                connection.abort()
            registry = Registry(env)
            kinds = dict((oids[name], expected[name]) for name in expected)
            def check(obj, where):
                registry.see(obj, where)
                if obj._p_oid in kinds:
                    klass, label = kinds[obj._p_oid]
                    require(type(obj) is klass and obj.__class__ is klass,
                            'a %s instead of a %s: %r, from %s', type(obj),
                            klass, obj, where)
                    if rng.random() < 0.6:
                        equal(label_of(obj), label, 'label of %r' % obj)
                    if rng.random() < 0.2:
                        held.append(obj)
            for way in rng.choice([['names'], ['names', 'crawler'],
                                   ['crawler', 'names'], ['instances'],
                                   ['start', 'names'], ['start', 'instances'],
                                   ['instances', 'crawler', 'names']]):
                env.op(way)
                if way == 'start':
                    # Not all of them have been reached by a reference.
                    for oid in rng.sample(sorted(kinds), min(5, len(kinds))):
                        for obj in connection.get_crawler(start_oid=oid):
                            check(obj, 'a crawler that starts there')
                    continue
                if way == 'names':
                    for name in rng.sample(sorted(expected), len(expected)):
                        obj = connection.get_root()[name]
                        check(obj, 'the root')
                        require(connection.get(oids[name]) is obj,
                                'get() does not give %s', name)
                elif way == 'crawler':
                    for obj in connection.get_crawler(
                            batch_size=rng.choice([1, 5, 100])):
                        check(obj, 'the crawler')
                else:
                    klass = rng.choice(family)
                    found = set()
                    for obj in gen_every_instance(connection, klass):
                        check(obj, 'gen_every_instance()')
                        found.add(obj._p_oid)
                    for oid, (other, label) in kinds.items():
                        if issubclass(other, klass):
                            require(oid in found, 'gen_every_instance() does '
                                    'not give the %s %r', other, oid)
            env.count('views checked')
            obj = None
        rng.shuffle(held)
        del held[rng.randrange(len(held) + 1):]
        for name in rng.sample(sorted(expected),
                               rng.randrange(len(expected) + 1)):
            env.op('remove', name)
            del root[name]
            del expected[name]
            del oids[name]
        writer.commit()
        if rng.random() < 0.8:
            env.op('pack')
            writer.pack()
            server.finish_pack()
            for connection in readers + [writer]:
                if rng.random() < 0.8:
                    connection.abort()
    env.nontrivial = len(used) < serial
