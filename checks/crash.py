"""
S01 crash, S02 power failure, S05 crash during a pack, S03 I/O errors.

The workload runs with the recorder (vlib/recorder.c); every state of the disk
that a crash can leave (vlib/simfs.py) is opened by the real code.
"""
import errno
import os
import sqlite3
import time

from durus.connection import Connection
from durus.persistent_dict import PersistentDict

from vlib import classes, simfs
from vlib.case import Violation, Inconclusive, require, equal
from vlib.storages import FILE_KINDS, open_storage
from vlib.twins import Twins, canon_model, canon_real, digest, compare


class Database(object):
    """A database that is changed while it is recorded."""

    def __init__(self, rng, env, kind=None, big=None, classes_kinds=None):
        self.rng = rng
        self.env = env
        self.kind = kind or rng.choice(FILE_KINDS)
        self.directory = os.path.realpath(env.fresh('db'))
        os.mkdir(self.directory)
        self.path = os.path.join(self.directory, 'data')
        self.cache_size = rng.choice([3, 1000])
        env.op('create', self.kind)
        env.count('histories on ' + self.kind)
        self.storage = open_storage(self.kind, self.path)
        env.cleanup(self.close)
        self.connection = Connection(self.storage, cache_size=self.cache_size)
        if big is None:
            big = rng.choice([0, 0, 0.05, 0.2])
        self.twins = Twins(rng, env, self.connection, big=big)
        self.states = [] # digest after each commit
        self.lines = []
        self.note_state()
        self.recording = None
        self.packer = None
        self.stepped = False

    def close(self):
        if self.recording is not None:
            self.recording.stop()
        if self.storage is not None:
            self.storage.close()
            self.storage = None

    def note_state(self):
        lines = canon_model(self.twins.root)
        self.lines.append(lines)
        self.states.append(digest(lines))

    def start(self):
        self.recording = simfs.Recording(self.directory,
                                         self.env.fresh('log'))
        self.env.cleanup(self.recording.stop)

    def mark(self, text):
        if self.recording is not None:
            self.recording.mark(text)

    def commit(self):
        self.env.op('commit')
        self.twins.commit_model()
        self.note_state()
        j = len(self.states) - 1
        self.mark('B %d' % j)
        self.connection.commit()
        self.mark('A %d' % j)

    def abort(self):
        self.connection.abort()
        self.twins.abort_model()

    def pack_step(self):
        """-> True if the pack has ended with this step."""
        if self.packer is None:
            self.env.op('pack begins')
            self.mark('P')
            self.packer = self.storage.get_packer()
        if self.twins.changed or self.rng.random() < 0.03:
            self.abort()
        try:
            self.stepped = True
            next(self.packer)
            return False
        except StopIteration:
            self.packer = None
            self.env.op('pack has ended')
            self.abort()
            self.twins.drop_unreachable()
            self.mark('Q')
            return True

    def pack(self):
        self.abort()
        while not self.pack_step():
            pass

    def reopen(self):
        self.env.op('reopen')
        self.packer = None
        self.storage.close()
        self.storage = open_storage(self.kind, self.path)
        self.connection = Connection(self.storage, cache_size=self.cache_size)
        self.twins.abort_model()
        self.twins.attach(self.connection)
        for m in list(self.twins.real):
            if m not in self.twins.stored:
                del self.twins.real[m]
        self.twins.changed.clear()

    def refresh(self):
        """To be called before the first change after a step of a pack."""
        if self.stepped:
            # Objects that are not reachable may have been removed already.
            self.twins.drop_missing(self.storage)
            self.stepped = False

    def change(self, most=4):
        self.refresh()
        for _ in range(self.rng.randrange(1, most + 1)):
            self.twins.mutate()


class Budget(object):
    """Limits the time for the points of one case: all of them are looked at
    if they are few; otherwise a random choice."""

    def __init__(self, rng, env, events, most):
        self.rng = rng
        self.env = env
        self.share = min(1.0, float(most) / max(1, len(events)))
        self.end = time.process_time() + 25

    def __call__(self, important=False):
        if time.process_time() > self.end:
            self.env.count('points left out for lack of time')
            return False
        if important or self.share >= 1 or self.rng.random() < self.share:
            return True
        self.env.count('points left out of long histories')
        return False


class Oracle(object):
    """Opens images and says whether they hold what they must."""

    def __init__(self, rng, env, database, what, pack=False):
        self.rng = rng
        self.env = env
        self.database = database
        self.kind = database.kind
        self.what = what
        self.pack = pack
        self.directory = env.fresh('image')
        self.path = os.path.join(self.directory, 'data')
        self.seen = {}

    def check(self, files, low, high, where):
        """The image must hold one of the states low to high."""
        key = hash(tuple(sorted(files.items())))
        if key in self.seen and self.seen[key] >= (low, -high):
            pass
        if self.seen.get(key) == (low, high):
            self.env.count('images that were seen before')
            return
        self.seen[key] = low, high
        simfs.put(files, self.database.directory, self.directory)
        self.env.count('images opened')
        def fail(message):
            raise Violation('%s, after %s: %s' % (self.what, where, message))
        try:
            storage = open_storage(self.kind, self.path, repair=True)
        except Exception as e:
            fail('%s can not be opened: %s: %s' % (
                self.kind, type(e).__name__, e))
        try:
            try:
                connection = Connection(storage)
                lines = canon_real(connection.get_root())
            except Exception as e:
                fail('%s can not be read: %s: %s' % (
                    self.kind, type(e).__name__, e))
            found = digest(lines)
            allowed = self.database.states[low:high + 1]
            if found not in allowed:
                if found in self.database.states:
                    j = len(self.database.states) - 1 - \
                        self.database.states[::-1].index(found)
                    fail('%s has the state after commit %d, expected %d to %d'
                         % (self.kind, j, low, high))
                try:
                    compare(lines, self.database.lines[high],
                            'difference from the state after commit %d' % high)
                except Violation as e:
                    fail('%s has a state that never was (expected: commit %d '
                         'to %d)\n%s' % (self.kind, low, high, e))
            self.env.count('state of the last acknowledged commit'
                           if found == allowed[0] else
                           'state of the commit in progress')
            self.go_on(storage, connection, lines, fail)
        finally:
            storage.close()

    def go_on(self, storage, connection, lines, fail):
        """The database accepts commits, and survives another reopen."""
        rng = self.rng
        try:
            if self.pack and rng.random() < 0.7:
                storage.pack()
                equal(canon_real(Connection(storage).get_root()), lines,
                      'state after the next pack')
                self.env.count('packs of recovered databases')
            root = connection.get_root()
            root['recovered'] = PersistentDict(x=PersistentDict(y=1))
            connection.commit()
            expected = canon_real(root)
        except Violation as e:
            fail(str(e))
        except Exception as e:
            fail('%s does not accept a commit: %s: %s' % (
                self.kind, type(e).__name__, e))
        storage.close()
        try:
            again = open_storage(self.kind, self.path)
        except Exception as e:
            fail('%s can not be opened after recovery and a commit: %s: %s' % (
                self.kind, type(e).__name__, e))
        try:
            try:
                observed = canon_real(Connection(again).get_root())
            except Exception as e:
                fail('%s can not be read after recovery and a commit: %s: %s' %
                     (self.kind, type(e).__name__, e))
            if observed != expected:
                fail('after recovery, a commit and a reopen the state of %s '
                     'is another one' % self.kind)
            self.env.count('databases that went on')
        finally:
            again.close()


def walk(events, disk):
    """Generate (number, event, low, high, packing) before each event, and at
    the end; the disk is as it is then."""
    low = high = 0
    packing = False
    for number, event in enumerate(events):
        if event[0] == 'M':
            words = event[1].split()
            if words[0] == 'B':
                high = int(words[1])
            elif words[0] == 'A':
                low = int(words[1])
            elif words[0] == 'P':
                packing = True
            elif words[0] == 'Q':
                packing = False
            continue
        if event[0] == 'X' and not event[1].endswith('-shm'):
            raise Inconclusive('not supported by the recorder: %s' % event[1])
        yield number, event, low, high, packing
        disk.do(event)
    yield len(events), None, low, high, packing


def describe(events, number):
    out = []
    for event in events[max(0, number - 3):number]:
        if event[0] == 'W':
            out.append('write %d bytes at %d' % (len(event[3]), event[2]))
        else:
            out.append(' '.join(
                str(os.path.basename(x) if isinstance(x, str) else x)
                for x in event))
    return 'event %d of %d (%s)' % (number, len(events), '; '.join(out))


def crash_workload(rng, env, packs, crowds=False):
    database = Database(rng, env)
    twins = database.twins
    twins.populate(rng.choice([0, 3, 10]))
    if rng.random() < 0.7:
        database.commit()
        if rng.random() < 0.3:
            database.pack()
    # The recording starts here.
    database.states = database.states[-1:]
    database.lines = database.lines[-1:]
    database.abort()
    database.start()
    for _ in range(rng.randrange(1, 3 if crowds else 6)):
        n = rng.random()
        database.change()
        if crowds:
            twins.crowd(rng.choice([300, 600, 1100, 2500]))
            n *= 0.9
        if packs and n < 0.5:
            database.abort()
            # A pack with commits between its steps.
            gap = rng.choice([1, 2, 5, 20])
            k = 0
            while not database.pack_step():
                k += 1
                if k % gap == 0 and rng.random() < 0.6:
                    database.change()
                    database.commit()
        elif n < 0.9:
            database.commit()
        elif n < 0.95:
            database.abort()
        else:
            database.reopen()
    database.recording.stop()
    events = database.recording.events()
    database.close()
    env.count('recorded events', len(events))
    env.count('recorded commits', len(database.states) - 1)
    env.nontrivial = len(database.states) > 1 or packs
    return database, events


def cuts(rng, n, most):
    result = set([1, n - 1, n // 2, 8, 7, 4])
    for _ in range(most):
        result.add(rng.randrange(n))
    result = [x for x in result if 0 < x < n]
    rng.shuffle(result)
    return result[:most]


def process_crash(rng, env, packs=False, crowds=False):
    database, events = crash_workload(rng, env, packs, crowds)
    oracle = Oracle(rng, env, database, 'process killed', pack=packs)
    disk = simfs.Disk(database.recording.snapshot)
    crash_points(rng, env, database, events, disk, oracle, packs,
                 15 if crowds else 500)


def crowd_crash(rng, env):
    """Commits of many objects."""
    process_crash(rng, env, crowds=True)


def crash_points(rng, env, database, events, disk, oracle, packs, most=500):
    nested = 0
    budget = Budget(rng, env, events, most)
    for number, event, low, high, packing in walk(events, disk):
        if not budget(event is None):
            continue
        where = describe(events, number)
        files = disk.crash()
        oracle.check(files, low, high, where)
        if packing:
            env.count('crashes during a pack')
        if low != high:
            env.count('crashes during a commit')
        if event is not None and event[0] == 'W':
            n = len(event[3])
            for cut in cuts(rng, n, 4 if n < 100 else 6):
                oracle.check(disk.torn(event, cut), low, high,
                             '%s, then %d of %d bytes' % (where, cut, n))
                env.count('torn writes')
                if nested < 2 and rng.random() < 0.05:
                    nested += 1
                    crash_in_recovery(rng, env, database,
                                      disk.torn(event, cut), low, high)
        if nested < 2 and rng.random() < 0.03:
            nested += 1
            crash_in_recovery(rng, env, database, files, low, high)


def crash_in_recovery(rng, env, database, files, low, high):
    """Killed again while the database is opened and repaired."""
    directory = os.path.realpath(env.fresh('recovery'))
    simfs.put(files, database.directory, directory)
    recording = simfs.Recording(directory, env.fresh('log'))
    env.cleanup(recording.stop)
    storage = open_storage(database.kind, os.path.join(directory, 'data'),
                           repair=True)
    connection = Connection(storage)
    recording.stop()
    storage.close()
    events = recording.events()
    inner = Database.__new__(Database)
    inner.kind = database.kind
    inner.directory = directory
    inner.states, inner.lines = database.states, database.lines
    oracle = Oracle(rng, env, inner, 'killed during recovery')
    disk = simfs.Disk(recording.snapshot)
    for number, event, _, _, _ in walk(events, disk):
        oracle.check(disk.crash(), low, high, describe(events, number))
        env.count('crashes during a recovery')
        if event is not None and event[0] == 'W':
            for cut in cuts(rng, len(event[3]), 2):
                oracle.check(disk.torn(event, cut), low, high,
                             describe(events, number) + ' torn')


def power_failure(rng, env, packs=False):
    database, events = crash_workload(rng, env, packs)
    power_points(rng, env, database, events, packs)


def power_points(rng, env, database, events, packs):
    oracle = Oracle(rng, env, database, 'power failed', pack=packs)
    disk = simfs.Disk(database.recording.snapshot)
    budget = Budget(rng, env, events, 600)
    for number, event, low, high, packing in walk(events, disk):
        if not budget(event is None):
            continue
        where = describe(events, number)
        hows = ['none', 'all', 'mixed', 'mixed']
        if len(events) > 300:
            hows = rng.sample(hows, 2)
        for how in hows:
            oracle.check(disk.power_failure(rng, how), low, high,
                         '%s, %s of the unsynchronized data' % (where, how))
            env.count('power failures')
        if low == high:
            env.count('power failures with everything acknowledged')
        if packing:
            env.count('power failures during a pack')


def pack_crash(rng, env):
    process_crash(rng, env, packs=True)


def pack_power(rng, env):
    power_failure(rng, env, packs=True)


# S03

ERRORS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]


def io_errors(rng, env):
    database = Database(rng, env)
    twins = database.twins
    twins.populate(rng.choice([1, 5]))
    database.commit()
    database.start()
    directory = env.fresh('image')
    def check_image(what):
        """What a new process would find now."""
        files = {}
        for name in os.listdir(database.directory):
            with open(os.path.join(database.directory, name), 'rb') as f:
                files[os.path.join(database.directory, name)] = f.read()
        simfs.put(files, database.directory, directory)
        storage = open_storage(database.kind, os.path.join(directory, 'data'),
                               repair=True)
        try:
            compare(canon_real(Connection(storage).get_root()),
                    expected(), what)
        finally:
            storage.close()
        env.count('copies of the files opened')
    def expected():
        """The committed state."""
        return database.lines[-1]
    crowds = rng.random() < 0.02
    for step in range(2 if crowds else rng.randrange(2, 10)):
        database.change(rng.choice([1, 4, 12]))
        if crowds:
            twins.crowd(rng.choice([600, 1100, 2500]))
        kind = rng.choice([1, 2, 3])
        nth = rng.choice([1, 1, 2, 3, 5, 8])
        if crowds:
            nth = rng.choice([1, 3, 8, 20, 60, 200])
        sticky = rng.random() < 0.6
        # How much is written: nothing or a part of it (in thousandths).
        partial = rng.choice([0, 0, 500, rng.randrange(1, 100),
                              rng.randrange(1, 1000)])
        harmless = partial and rng.random() < 0.3
        if harmless:
            # Only short writes, no errors.
            kind, partial = 1, partial + 1000
        error = rng.choice(ERRORS)
        lib = simfs.lib()
        packing = database.packer is not None
        env.op('commit with', kind, nth, errno.errorcode[error],
               'partial %d' % partial if partial else '',
               'sticky' if sticky else '')
        lib.vp_fail(kind, nth, error, partial, int(sticky))
        raised = None
        try:
            database.connection.commit()
        except Exception as e:
            raised = e
        fired = lib.vp_fired()
        lib.vp_fail(0, 0, 0, 0, 0)
        if raised is None:
            twins.commit_model()
            database.note_state()
            if fired:
                # A partial write that was continued is no error.
                require(partial or database.kind == 'SqliteStorage',
                        'commit() returned after an I/O error (%s)',
                        env.trace[-1])
                env.count('errors that were overcome')
            if fired and harmless:
                env.count('commits with short writes')
            where = 'after a commit'
        else:
            require(not harmless, 'commit() raised %r after short writes',
                    raised)
            require(fired, 'commit() raised %r without an I/O error', raised)
            require(isinstance(raised, (OSError, sqlite3.Error)),
                    'commit() raised %r', raised)
            env.count('commits that failed')
            env.count('commits that failed on ' + database.kind)
            where = 'after a failed commit'
            env.op('failed', type(raised).__name__)
        raised = None
        compare(canon_real(Connection(database.storage).get_root()),
                expected(), 'the storage shows another state ' + where)
        check_image('a copy of the files has another state ' + where)
        # The condition has passed.
        n = rng.random()
        if n < 0.4:
            env.op('abort')
            database.abort()
            twins.check('abort() does not give the committed state')
            database.change()
        elif n < 0.6:
            env.op('abort and reopen')
            database.abort()
            database.reopen()
            twins.check('the reopened database has another state')
            database.change()
        elif n < 0.7 and database.packer is None and where != 'after a commit':
            env.op('abort and pack')
            database.abort()
            # With a storage that was not begun again, packing is refused.
            database.connection.get_root()['x'] = 1
            twins.root.data['x'] = 1
            twins.note_change(twins.root)
            database.commit()
            database.pack()
        else:
            env.op('go on')
        if rng.random() < 0.2:
            # A pack may be going on.
            if database.packer is None:
                database.abort()
            for _ in range(rng.randrange(1, 10)):
                if database.pack_step():
                    break
        database.commit()
        where = 'after the next commit'
        compare(canon_real(Connection(database.storage).get_root()),
                expected(), 'the storage shows another state ' + where)
        check_image('a copy of the files has another state ' + where)
        env.count('commits after the failure')
    database.recording.stop()
    database.reopen()
    compare(canon_real(database.connection.get_root()), expected(),
            'the reopened database has another state')


def pack_errors(rng, env):
    """I/O errors during a pack: the pack fails, the database does not."""
    database = Database(rng, env)
    twins = database.twins
    twins.populate(rng.choice([3, 10]))
    database.commit()
    database.change(12)
    database.commit()
    database.start()
    lib = simfs.lib()
    for step in range(rng.randrange(1, 4)):
        kind = rng.choice([1, 2, 3])
        nth = rng.choice([1, 1, 2, 3, 5, 8, 20, 60])
        error = rng.choice(ERRORS)
        sticky = rng.random() < 0.5
        env.op('pack with', kind, nth, errno.errorcode[error])
        database.abort()
        lib.vp_fail(kind, nth, error, 0, int(sticky))
        failed = None
        try:
            while not database.pack_step():
                pass
        except (OSError, sqlite3.Error) as e:
            failed = e
            database.packer = None
            env.count('packs that failed')
        fired = lib.vp_fired()
        lib.vp_fail(0, 0, 0, 0, 0)
        require(failed is None or fired, 'a pack raised %r without an I/O '
                'error', failed)
        failed = None
        compare(canon_real(Connection(database.storage).get_root()),
                database.lines[-1], 'state after a failed pack')
        if rng.random() < 0.5:
            database.change()
            database.commit()
            compare(canon_real(Connection(database.storage).get_root()),
                    database.lines[-1], 'state after a failed pack')
        if rng.random() < 0.5:
            database.reopen()
        if rng.random() < 0.5:
            database.pack()
        compare(canon_real(Connection(database.storage).get_root()),
                database.lines[-1], 'state after the next pack')
    database.recording.stop()
    database.reopen()
    compare(canon_real(database.connection.get_root()), database.lines[-1],
            'the reopened database has another state')
