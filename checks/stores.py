"""S04 packing, S06 oids, S08 storages as dictionaries of records."""
import os
import random
import struct

from durus.connection import Connection, ROOT_OID
from durus.storage import MemoryStorage

from checks.crash import Database
from vlib import records
from vlib.case import Violation, require, equal, short
from vlib.storages import FILE_KINDS, open_storage
from vlib.twins import canon_real, compare


def name(oid):
    return '%d' % struct.unpack('>Q', oid)


# S04

def packing(rng, env):
    database = Database(rng, env, big=rng.choice([0, 0, 0.02]))
    twins = database.twins
    size = rng.choice([0, 3, 10, 10, 40, 150, 260])
    twins.populate(size, max(12, size))
    if rng.random() < 0.3:
        database.pack() # Nothing but the root, perhaps.
    database.commit()
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(0, 6)):
            database.change(6)
            if rng.random() < 0.3 and size:
                # Make garbage.
                for key in list(twins.root.data):
                    if rng.random() < 0.3:
                        del twins.root.data[key]
                        del twins.handle(twins.root)[key]
                        twins.note_change(twins.root)
            if rng.random() < 0.8:
                database.commit()
            else:
                database.abort()
        if rng.random() < 0.2:
            database.reopen()
        one_pack(rng, env, database)
        if rng.random() < 0.5:
            database.reopen()
            check_state(env, database, 'after a pack and a reopen')
    database.reopen()
    check_state(env, database, 'after a reopen at the end')


def stored_oids(storage):
    return set(oid for oid, record in storage.gen_oid_record())


def check_state(env, database, what):
    storage = database.storage
    compare(canon_real(Connection(storage).get_root()), database.lines[-1],
            'state of a new connection ' + what)
    compare(canon_real(database.connection.get_root()), database.lines[-1],
            'state of the connection ' + what)
    env.count('states compared')


def one_pack(rng, env, database):
    twins = database.twins
    database.abort()
    storage = database.storage
    alive = set(records.scan(storage))
    all_oids = stored_oids(storage)
    require(alive <= all_oids, 'iterating over the storage leaves out %s',
            sorted(map(name, alive - all_oids)))
    dead = all_oids - alive
    env.op('pack', len(alive), 'alive', len(dead), 'dead')
    ever_alive = set(alive)
    # What commits store stays, too, and what it refers to.
    kept = set()
    real_store = storage.store
    def store(oid, record):
        kept.add(oid)
        return real_store(oid, record)
    storage.store = store
    try:
        commits, ended = pack_with_commits(rng, env, database, ever_alive,
                                           kept)
    finally:
        del storage.store
    if not ended:
        return
    found = records.scan(storage)
    check_state(env, database, 'after a pack')
    after = stored_oids(storage)
    require(set(found) <= after, 'after a pack iterating leaves out %s',
            sorted(map(name, set(found) - after)))
    gone = dead - ever_alive
    left = sorted(map(name, gone & after))
    require(not left, 'objects that were unreachable when the pack began are '
            'still there: %s', left)
    for oid in gone:
        try:
            storage.load(oid)
        except KeyError:
            pass
        else:
            raise Violation('load() returns an object that the pack removed: '
                            + name(oid))
    if gone:
        env.count('objects removed', len(gone))
        env.count('packs that removed objects')
    env.count('objects linked again during a pack', len(dead & ever_alive))
    # Go on without a boundary.
    if rng.random() < 0.6:
        database.change()
        database.commit()
        check_state(env, database, 'after a commit after a pack')


def closure(storage, oids):
    """What can be reached from there (some may be gone)."""
    todo = list(oids)
    seen = set()
    while todo:
        oid = todo.pop()
        if oid not in seen:
            seen.add(oid)
            try:
                record = storage.load(oid)
            except KeyError:
                continue
            todo.extend(split(record))
    return seen


def pack_with_commits(rng, env, database, ever_alive, kept):
    storage = database.storage
    twins = database.twins
    commits = steps = 0
    # How often to commit between steps.
    pace = rng.choice([0, 0.02, 0.2, 0.6, 1.0])
    first = True
    abandon = rng.random() < 0.08
    while True:
        if commits < 25 and (rng.random() < pace or
                             (first and pace and rng.random() < 0.5)):
            if database.packer is not None or rng.random() < 0.2:
                for _ in range(rng.choice([1, 1, 3])):
                    database.refresh()
                    if rng.random() < 0.2:
                        # Take something out, perhaps to put it back.
                        keys = list(twins.root.data)
                        if keys:
                            key = rng.choice(keys)
                            del twins.root.data[key]
                            del twins.handle(twins.root)[key]
                            twins.note_change(twins.root)
                    database.change(rng.choice([1, 3, 8]))
                    if rng.random() < 0.9:
                        database.commit()
                        commits += 1
                        ever_alive.update(closure(storage, [ROOT_OID]))
                        ever_alive.update(closure(storage, kept))
                        if rng.random() < 0.1:
                            check_state(env, database,
                                        'after a commit during a pack')
                    else:
                        database.abort()
        first = False
        if database.packer is not None and rng.random() < 0.05:
            # Another pack is refused.
            for _ in storage.get_packer():
                pass
            env.count('packs during a pack')
        if abandon and database.packer is not None and rng.random() < 0.3:
            database.packer.close()
            database.packer = None
            env.op('abandoned')
            env.count('abandoned packs')
            check_state(env, database, 'after a pack that was abandoned')
            database.commit()
            return commits, False
        ended = database.pack_step()
        steps += 1
        if ended:
            break
    env.count('packs')
    env.count('packs of ' + database.kind)
    env.count('steps of packs', steps)
    if commits:
        env.count('packs with commits between the steps of ' + database.kind)
        env.count('commits between the steps of packs', commits)
    return commits, True


# S08

class Model(object):

    def __init__(self):
        self.committed = {}
        self.refs = {} # oid -> refs of the committed record
        self.pending = {}
        self.free = [] # allocated, not stored
        self.removed = set()
        self.unreported = set() # removed by packs since the last sync()

    def reachable(self, start=ROOT_OID):
        todo = [start]
        seen = set()
        while todo:
            oid = todo.pop()
            if oid not in seen:
                seen.add(oid)
                todo.extend(split(self.committed[oid]))
        return seen


def make_record(oid, data, refs):
    return oid + struct.pack('>L', len(data)) + data + b''.join(refs)


def split(record):
    n, = struct.unpack('>L', record[8:12])
    refs = record[12 + n:]
    return [refs[i:i + 8] for i in range(0, len(refs), 8)]


def dictionary(rng, env):
    kind = rng.choice(FILE_KINDS + ['MemoryStorage'])
    path = env.fresh('data')
    model = Model()
    if kind == 'MemoryStorage':
        storage = MemoryStorage()
    else:
        storage = open_storage(kind, path)
    box = [storage]
    env.cleanup(lambda: box[0].close())
    env.op('create', kind)
    env.count('histories on ' + kind)
    free = model.free
    def allocate():
        oid = box[0].new_oid()
        env.op('new_oid', name(oid))
        require(oid not in model.committed, 'new_oid() gives the oid of a '
                'stored object: %s', name(oid))
        require(oid not in free, 'new_oid() gives an oid again: %s', name(oid))
        free.append(oid)
        return oid
    equal(allocate(), ROOT_OID, 'first oid')
    def data():
        n = rng.random()
        if n < 0.1:
            return b''
        if n < 0.13:
            return os.urandom(1) * rng.choice([5000, 70000])
        return bytes(rng.randrange(256) for _ in range(rng.randrange(30)))
    def transaction(outcome=None):
        env.op('begin')
        storage = box[0]
        storage.begin()
        pending = {}
        if not model.committed:
            targets = [ROOT_OID]
        else:
            targets = []
            for _ in range(rng.choice([0, 1, 1, 2, 5, 30])):
                if rng.random() < 0.5 or not model.committed:
                    if free and rng.random() < 0.5:
                        targets.append(rng.choice(free))
                    else:
                        targets.append(allocate())
                else:
                    targets.append(rng.choice(sorted(model.committed)))
        if rng.random() < 0.3:
            rng.shuffle(targets)
        n = rng.random()
        if n < 0.06 and model.committed and kind != 'MemoryStorage':
            outcome = 'pack'
        elif n < 0.2 and model.committed:
            outcome = 'abandon'
        reachable = model.reachable() if model.committed else set([ROOT_OID])
        for oid in targets:
            usable = sorted(set(targets) | reachable)
            if outcome == 'abandon':
                usable = sorted(set(targets) | set(model.committed))
            refs = sorted(set(rng.choice(usable)
                              for _ in range(rng.choice([0, 1, 2, 2, 6]))))
            record = make_record(oid, data(), refs)
            env.op('store', name(oid), short(record, 60))
            storage.store(oid, record)
            pending[oid] = record
            if rng.random() < 0.1:
                # Nothing can be seen of it yet.
                check_load(oid)
        if rng.random() < 0.1:
            allocate()
        if outcome == 'pack':
            # A pack now changes nothing.
            env.op('pack during a transaction')
            storage.pack()
            see_removed(reachable, 'a pack during a transaction')
            env.count('packs during a transaction')
        if outcome == 'abandon':
            env.op('abandon')
            if rng.random() < 0.5:
                storage.begin()
            env.count('abandoned transactions')
            return
        # Everything that is referred to has to be stored.
        for oid in list(pending):
            for ref in split(pending[oid]):
                require(ref in pending or ref in model.committed, 'harness')
        storage.end()
        env.op('end')
        env.count('transactions')
        env.count('stores', len(pending))
        model.committed.update(pending)
        for oid in pending:
            if oid in free:
                free.remove(oid)
    def see_removed(reachable, what):
        """A pack may have removed whatever is not reachable."""
        found = set()
        for oid in sorted(model.committed):
            try:
                box[0].load(oid)
                found.add(oid)
            except KeyError:
                require(oid not in reachable, '%s removed %s', what, name(oid))
        for oid in set(model.committed) - found:
            del model.committed[oid]
            model.removed.add(oid)
            model.unreported.add(oid)
            env.count('records removed by packs')
    packer = [None]
    def pack_step():
        if packer[0] is None:
            env.op('get_packer')
            box[0].begin()
            packer[0] = box[0].get_packer()
            return
        env.op('step')
        for _ in range(rng.choice([1, 1, 3, 1000])):
            try:
                next(packer[0])
            except StopIteration:
                packer[0] = None
                env.count('packs in steps')
                break
        see_removed(model.reachable(), 'a pack in steps')
    def check_load(oid):
        storage = box[0]
        try:
            record = storage.load(oid)
        except KeyError:
            require(oid not in model.committed, 'load(%s): KeyError',
                    name(oid))
            env.count('loads of oids that are not stored')
            return
        require(oid in model.committed, 'load(%s) returns %s, but it was '
                'never stored', name(oid), short(record, 100))
        equal(record, model.committed[oid], 'load(%s)' % name(oid))
        env.count('loads')
    def check_pairs(pairs, expected, what):
        seen = {}
        for oid, record in pairs:
            require(oid not in seen, '%s: %s comes twice', what, name(oid))
            seen[oid] = record
        missing = set(expected) - set(seen)
        extra = set(seen) - set(expected)
        require(not missing, '%s: missing %s', what, sorted(map(name, missing)))
        require(not extra, '%s: too many: %s', what, sorted(map(name, extra)))
        for oid in expected:
            equal(seen[oid], model.committed[oid], '%s: record of %s' % (
                what, name(oid)))
        env.count(what)
    def check_all():
        storage = box[0]
        for oid in sorted(model.committed):
            check_load(oid)
        for oid in free:
            check_load(oid)
        for oid in model.removed:
            if oid not in model.committed:
                check_load(oid)
        for number in (len(model.committed) + rng.randrange(5),
                       rng.randrange(2**20), 2**40, 2**62):
            check_load(struct.pack('>Q', number))
        if kind == 'MemoryStorage':
            expected = model.reachable()
        else:
            expected = model.committed
        check_pairs(storage.gen_oid_record(), expected, 'iterations')
    def iterate():
        storage = box[0]
        start = rng.choice(sorted(model.committed) + [ROOT_OID] * 3)
        kwargs = {}
        if rng.random() < 0.5:
            kwargs['batch_size'] = rng.choice([1, 2, 3, 100])
        env.op('iterate from', name(start), kwargs)
        check_pairs(storage.gen_oid_record(start_oid=start, **kwargs),
                    model.reachable(start), 'iterations from an oid')
    def bulk():
        oids = [rng.choice(sorted(model.committed))
                for _ in range(rng.randrange(8))]
        env.op('bulk_load', [name(x) for x in oids])
        equal(list(box[0].bulk_load(oids)),
              [model.committed[x] for x in oids], 'bulk_load()')
        env.count('bulk loads')
    def pack():
        env.op('pack')
        storage = box[0]
        storage.begin()
        storage.pack()
        if kind != 'MemoryStorage':
            reachable = model.reachable()
            for oid in list(model.committed):
                if oid not in reachable:
                    del model.committed[oid]
                    model.removed.add(oid)
                    model.unreported.add(oid)
                    env.count('records removed by packs')
            env.count('packs')
    def reopen():
        if kind == 'MemoryStorage':
            return
        env.op('reopen')
        packer[0] = None
        box[0].close()
        box[0] = open_storage(kind, path)
        model.unreported.clear()
        del free[:]
        env.count('reopened')
    transaction()
    incremental = rng.choice([0, 0, 0.2])
    for _ in range(rng.choice([3, 10, 25])):
        n = rng.random()
        if n < 0.5:
            transaction()
        elif n < 0.6:
            iterate()
        elif n < 0.65:
            bulk()
        elif n < 0.75 and packer[0] is None:
            pack()
        elif n < 0.85 and packer[0] is None or n > 0.76 and n < 0.78:
            reopen()
        elif n < 0.9:
            removed = box[0].sync()
            env.op('sync')
            for oid in removed:
                require(oid in model.removed, 'sync() reports %s, which was '
                        'not removed by a pack', name(oid))
            for oid in model.unreported:
                require(oid in removed, 'sync() does not report %s, which '
                        'was removed by a pack', name(oid))
            model.unreported.clear()
            env.count('calls of sync()')
        elif n < 0.95:
            allocate()
        else:
            check_load(rng.choice(sorted(model.committed)))
        if kind != 'MemoryStorage' and (
                rng.random() < (0.6 if packer[0] else incremental)):
            pack_step()
        if rng.random() < 0.3:
            check_all()
    check_all()
    reopen()
    check_all()


# S06

def oids(rng, env):
    """Allocations, with everything else that there is in between."""
    kind = rng.choice(FILE_KINDS)
    path = env.fresh('data')
    box = [open_storage(kind, path)]
    env.cleanup(lambda: box[0].close())
    env.count('histories on ' + kind)
    env.op('create', kind)
    stored = {} # oid -> refs
    waiting = set() # handed out, not stored
    ended = set() # stored once, removed by a pack
    silent = set() # removed by a pack, not reported by sync()
    packer = [None]
    at_start = set()
    def reachable():
        todo = [ROOT_OID]
        seen = set()
        while todo:
            oid = todo.pop()
            if oid not in seen:
                seen.add(oid)
                todo.extend(stored[oid])
        return seen
    def allocate():
        oid = box[0].new_oid()
        equal((type(oid), len(oid)), (bytes, 8), 'an oid')
        env.op('new_oid', name(oid))
        require(oid not in waiting, 'new_oid() returns %s, which was handed '
                'out before and is not stored yet', name(oid))
        if oid in stored:
            # Some packs remove objects before their last step.
            try:
                box[0].load(oid)
            except KeyError:
                require(packer[0] is not None and oid not in reachable(),
                        '%s got lost', name(oid))
                del stored[oid]
                ended.add(oid)
                silent.add(oid)
            else:
                raise Violation('new_oid() returns %s, which is the oid of a '
                                'stored object' % name(oid))
        # Somebody may still have the object.
        require(oid not in silent, 'new_oid() returns %s, whose removal was '
                'not reported by sync()', name(oid))
        if oid in ended:
            env.count('oids that were used again after a pack')
            ended.discard(oid)
        waiting.add(oid)
        env.count('oids allocated')
        return oid
    def commit(outcome='end'):
        storage = box[0]
        storage.begin()
        new = set()
        if stored:
            for _ in range(rng.choice([0, 1, 3, 10])):
                if waiting and rng.random() < 0.4:
                    new.add(rng.choice(sorted(waiting)))
                else:
                    new.add(allocate())
            targets = set(new)
            targets.update(rng.sample(sorted(stored),
                                      rng.randrange(min(3, len(stored)) + 1)))
        else:
            targets = new = set([allocate()])
        alive = reachable() if stored else set()
        pending = {}
        for oid in sorted(targets):
            usable = sorted(alive | targets)
            refs = sorted(set(rng.sample(usable, rng.randrange(
                min(4, len(usable)) + 1))))
            pending[oid] = refs
            storage.store(oid, make_record(oid, b'x' * rng.randrange(20), refs))
        env.op('store', [name(x) for x in sorted(targets)], outcome)
        if outcome == 'end':
            storage.end()
            stored.update(pending)
            waiting.difference_update(new)
            env.count('commits')
        elif outcome == 'surprise':
            if kind != 'FileStorage':
                storage.begin()
            else:
                strange = struct.pack('>Q', 10**6 + rng.randrange(10**6))
                try:
                    storage.store(strange, make_record(strange, b'', []))
                except ValueError:
                    env.count('commits that failed')
                else:
                    raise Violation('a FileStorage does not refuse an oid '
                                    'that it did not allocate')
        else:
            # A connection goes on with another transaction.
            storage.begin()
            env.count('abandoned commits')
    def step():
        storage = box[0]
        if packer[0] is None:
            storage.begin()
            env.op('pack begins')
            packer[0] = storage.get_packer()
        for _ in range(rng.choice([1, 1, 3, 50])):
            try:
                next(packer[0])
            except StopIteration:
                packer[0] = None
                alive = reachable()
                for oid in list(stored):
                    if oid not in alive:
                        try:
                            storage.load(oid)
                        except KeyError:
                            del stored[oid]
                            ended.add(oid)
                            silent.add(oid)
                env.op('pack ended')
                env.count('packs')
                break
        else:
            # An unreachable object must not be linked again when the pack
            # has removed it.
            alive = reachable()
            for oid in list(stored):
                if oid not in alive:
                    try:
                        storage.load(oid)
                    except KeyError:
                        del stored[oid]
                        ended.add(oid)
                        silent.add(oid)
    commit()
    for _ in range(rng.choice([5, 20, 60])):
        n = rng.random()
        if n < 0.3:
            for _ in range(rng.choice([1, 2, 5, 40])):
                allocate()
        elif n < 0.6:
            commit()
        elif n < 0.68:
            commit(rng.choice(['surprise', 'abandoned']))
        elif n < 0.84:
            step()
        elif n < 0.9:
            if packer[0] is None:
                removed = set(box[0].sync())
                env.op('sync')
                for oid in sorted(silent):
                    require(oid in removed, 'sync() does not report that a '
                            'pack removed %s', name(oid))
                for oid in sorted(removed):
                    require(oid in silent, 'sync() reports %s, which was not '
                            'removed by a pack since', name(oid))
                silent.clear()
                env.count('removals reported', len(removed))
        elif n < 0.93:
            packer[0] = None
            env.op('reopen')
            box[0].close()
            box[0] = open_storage(kind, path)
            waiting.clear()
            silent.clear()
            env.count('reopened')
        else:
            # Nothing that is stored got lost.
            alive = reachable()
            for oid in stored:
                try:
                    box[0].load(oid)
                except KeyError:
                    require(oid not in alive, '%s got lost', name(oid))


def connections(rng, env):
    """Objects of a real connection: no two of them have the same oid."""
    database = Database(rng, env)
    twins = database.twins
    twins.populate(rng.choice([0, 5, 20]))
    seen = 0
    for _ in range(rng.choice([5, 15])):
        n = rng.random()
        database.change(8)
        if n < 0.5:
            database.commit()
        elif n < 0.7:
            database.abort()
        elif n < 0.8:
            database.reopen()
        elif n < 0.9:
            for _ in range(rng.choice([1, 3, 1000])):
                if database.pack_step():
                    break
        else:
            database.commit()
            database.pack()
        owner = {}
        for m, real in list(twins.real.items()):
            oid = real._p_oid
            if oid is not None:
                require(owner.setdefault(oid, m) is m, 'two objects with the '
                        'oid %s: %r and %r', name(oid), owner[oid], m)
                seen += 1
        twins.check('state')
    env.count('oids of objects compared', seen)
