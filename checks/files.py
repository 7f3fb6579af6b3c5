"""
S07 cut copies of a file, S09 locks and readonly storages: FileStorage and
FileStorage2.
"""
import os
import struct
import random
import signal
import sys

from durus.connection import Connection, ROOT_OID
from durus.persistent_dict import PersistentDict

from checks.crash import Database
from vlib.case import Violation, require, equal
from vlib.storages import open_storage
from vlib.twins import canon_real, digest, compare

KINDS = ['FileStorage', 'FileStorage2']


def content(path):
    with open(path, 'rb') as f:
        return f.read()


# S07

class Growing(object):
    """The file that a writer changes: it may only grow."""

    def __init__(self, env, path):
        self.env = env
        self.path = path
        self.data = content(path)

    def look(self, what):
        data = content(self.path)
        if data[:len(self.data)] != self.data:
            if len(data) < len(self.data):
                raise Violation('%s: the file got shorter (%d -> %d)' % (
                    what, len(self.data), len(data)))
            n = next(i for i in range(len(self.data))
                     if data[i] != self.data[i])
            raise Violation('%s: byte %d of %d of the file was changed' % (
                what, n, len(self.data)))
        grown = len(data) - len(self.data)
        self.data = data
        self.env.count('times that the growing file was compared')
        return grown


def cut_copies(rng, env):
    kind = rng.choice(KINDS)
    database = Database(rng, env, kind)
    twins = database.twins
    path = database.path
    boundaries = {} # length -> digest, or None
    lengths = [] # in order
    def boundary(state):
        n = os.stat(path).st_size
        boundaries[n] = state
        lengths.append(n)
    initial = None
    if rng.random() < 0.5:
        # A file that a pack has written.
        twins.populate(rng.choice([0, 2, 20]))
        database.commit()
        if rng.random() < 0.5:
            database.change()
            database.commit()
        database.pack()
        initial = os.stat(path).st_size
        boundary(database.states[-1])
        env.count('packed files')
    else:
        # How long the file was before the first commit is known from
        # another one.
        other = env.fresh('empty')
        open_storage(kind, other).close()
        initial = os.stat(other).st_size
        equal(content(path)[:initial], content(other), 'start of a new file')
        boundaries[initial] = None
        lengths.append(initial)
        boundary(database.states[-1])
        env.count('new files')
    growing = Growing(env, path)
    old_record = database.storage.load(ROOT_OID)
    packer = None
    for _ in range(rng.randrange(1, 8)):
        n = rng.random()
        if n < 0.1:
            database.change()
            database.abort()
            equal(growing.look('after abort()'), 0, 'bytes that an abort adds')
        elif n < 0.2:
            database.reopen()
            packer = None
            equal(growing.look('after opening the file'), 0,
                  'bytes that opening the file adds')
        elif n < 0.3 and packer is None:
            # The file still only grows while it is being packed.
            packer = database.storage.get_packer()
            env.op('pack begins')
        else:
            if packer is not None:
                for _ in range(rng.choice([1, 2])):
                    try:
                        next(packer)
                    except StopIteration:
                        break
                    env.op('step of the pack')
                    if not os.path.exists(path + '.prepack'):
                        growing.look('during a pack')
                if os.path.exists(path + '.prepack'):
                    break
            database.change()
            database.commit()
            grown = growing.look('after commit()')
            if len(set(database.states[-2:])) > 1:
                require(grown > 0, 'a commit did not add to the file')
            if grown:
                boundary(database.states[-1])
    data = growing.data
    equal(lengths[-1], len(data), 'length of the file')
    database.close()
    env.count('commits in files', len(lengths) - 1)
    # Now cut it.
    cuts = set()
    if len(data) <= 700:
        cuts.update(range(1, len(data) + 1))
        env.count('files cut at every length')
    else:
        for n in lengths:
            for d in [0, 1, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 20, 24, 28]:
                cuts.update([n - d, n + d])
        for _ in range(150):
            cuts.add(rng.randrange(1, len(data) + 1))
        cuts.update(range(1, 40))
    cuts = sorted(n for n in cuts if 0 < n <= len(data))
    if len(cuts) > 400:
        cuts = sorted(set(rng.sample(cuts, 400)) | set(lengths))
    if initial > 2000:
        few = [n for n in cuts if n < initial]
        cuts = sorted(set(rng.sample(few, min(len(few), 60))) |
                      set(n for n in cuts if n >= initial))
    copy = env.fresh('copy')
    for n in cuts:
        check_cut(rng, env, kind, data[:n], copy, boundaries, lengths, initial)
    last = lengths[-1]
    if boundaries[last] is not None:
        for _ in range(12):
            tail = malformed(rng, kind, old_record)
            env.count('malformed ends')
            check_cut(rng, env, kind, data[:last] + tail, copy, boundaries,
                      lengths, initial)
    env.nontrivial = len(lengths) > 1


def malformed(rng, kind, record):
    """The bytes of a transaction with the right length that is nonsense, like
    one that was written in part when the power failed."""
    def noise(n):
        return bytes(rng.randrange(256) for _ in range(n))
    form = '>Q' if kind == 'FileStorage' else '>L'
    def pack(n):
        return struct.pack(form, n)
    # Some records are well formed.
    body = (pack(len(record)) + record) * rng.choice([0, 0, 1, 3])
    n = rng.random()
    if n < 0.3:
        body += pack(rng.randrange(0 if kind == 'FileStorage' else 1, 8))
        rest = rng.choice([noise(30), bytes(30), bytes(300)])
    elif n < 0.6:
        rest = noise(rng.randrange(40))
        body += pack(len(rest) + rng.choice([1, 2, 1000, 100000]))
    else:
        # The end of a record is missing.
        rest = pack(len(record)) + record[:rng.randrange(len(record))]
    body += rest
    if kind == 'FileStorage':
        return struct.pack('>Q', len(body)) + body
    return body


def check_cut(rng, env, kind, data, copy, boundaries, lengths, initial):
    n = len(data)
    def write():
        with open(copy, 'wb') as f:
            f.write(data)
    def fail(message, *args):
        raise Violation('a copy of a %s, cut to %d of %d bytes (commits end '
                        'at %s): %s' % (kind, n, lengths[-1], lengths,
                                        message % args))
    def observe(storage):
        try:
            storage.load(ROOT_OID)
        except KeyError:
            return None
        return digest(canon_real(Connection(storage).get_root()))
    last = max([x for x in lengths if x <= n] or [0])
    write()
    readonly = rng.random() < 0.3
    # Without repair.
    storage = None
    try:
        storage = open_storage(kind, copy, readonly=readonly)
    except Exception as e:
        error = e # Keeps the traceback alive, and what that refers to.
    if storage is not None:
        if n not in boundaries:
            fail('it was opened without an error%s',
                 ', as an empty database' if observe(storage) is None else '')
        try:
            found = observe(storage)
        except Exception as e:
            fail('can not be read: %s: %s', type(e).__name__, e)
        storage.close()
        if found != boundaries[n]:
            fail('it has another state than after the commit')
        env.count('copies that end with a commit')
    else:
        if n in boundaries:
            fail('it can not be opened: %r', error)
        env.count('copies that are reported' if n > initial else
                  'copies without the initial part')
    if content(copy) != data:
        fail('opening it without repair changed the file')
    if rng.random() < 0.1:
        # A readonly storage does not repair.
        try:
            storage = open_storage(kind, copy, readonly=True, repair=True)
        except Exception:
            pass
        else:
            storage.close()
        if content(copy) != data:
            fail('opening it readonly changed the file')
    # With repair.
    storage = None
    try:
        storage = open_storage(kind, copy, repair=True)
    except Exception as e:
        error = '%s: %s' % (type(e).__name__, e)
    if n < initial:
        if storage is not None:
            storage.close()
            fail('it was opened, although the initial part is missing')
        return
    if storage is None:
        fail('it can not be repaired: %s', error)
    try:
        found = observe(storage)
        if found != boundaries[last]:
            fail('after the repair it has not the state of the last commit '
                 'that it contains (%d)', last)
        if content(copy) != data[:last]:
            fail('the repair did not leave exactly the complete transactions')
        env.count('copies that were repaired')
        if rng.random() < 0.3:
            connection = Connection(storage)
            root = connection.get_root()
            root['again'] = PersistentDict(a=PersistentDict())
            connection.commit()
            expected = digest(canon_real(root))
            storage.close()
            storage = open_storage(kind, copy)
            if observe(storage) != expected:
                fail('after the repair a commit was lost')
            if content(copy)[:last] != data[:last]:
                fail('a commit after the repair changed earlier bytes')
            env.count('copies that went on')
    finally:
        storage.close()


# S09

def snapshot(directory):
    result = {}
    for name in sorted(os.listdir(directory)):
        path = os.path.join(directory, name)
        stat = os.stat(path)
        result[name] = (stat.st_ino, stat.st_size, stat.st_mtime_ns,
                        stat.st_mode, content(path))
    return result


def difference(a, b):
    out = []
    for name in sorted(set(a) | set(b)):
        if a.get(name) != b.get(name):
            out.append('%s: %s -> %s' % (
                name, a.get(name) and a[name][:3], b.get(name) and b[name][:3]))
    return '; '.join(out)


def in_child(function):
    """-> what the function returns (a short text) in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                text = function()
            except BaseException as e:
                text = 'error %s: %s' % (type(e).__name__, e)
            os.write(w, text.encode('utf8', 'replace')[:3000])
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        hunk = os.read(r, 4096)
        if not hunk:
            break
        data += hunk
    os.close(r)
    os.waitpid(pid, 0)
    return data.decode('utf8', 'replace')


def try_open(kind, path, **kwargs):
    try:
        storage = open_storage(kind, path, **kwargs)
    except Exception as e:
        return 'refused: %s' % type(e).__name__
    try:
        return 'opened'
    finally:
        storage.close()


class Calls(object):
    """Calls a function whenever the process is about to do something with
    the names or the locks of files."""

    EVENTS = ('os.rename', 'os.link', 'os.remove', 'os.truncate', 'os.chmod',
              'fcntl.flock', 'fcntl.lockf', 'fcntl.fcntl', 'open')
    function = None
    installed = False

    @classmethod
    def hook(cls, event, args):
        if cls.function is not None and event in cls.EVENTS:
            function, cls.function = cls.function, None
            try:
                function(event)
            finally:
                cls.function = function

    @classmethod
    def watch(cls, function, run):
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True
        cls.function = function
        try:
            return run()
        finally:
            cls.function = None


def locks(rng, env):
    kind = rng.choice(KINDS)
    database = Database(rng, env, kind)
    twins = database.twins
    twins.populate(rng.choice([0, 3, 30]))
    directory, path = database.directory, database.path
    intruders = []
    def attempt(what):
        """Somebody else tries to open the database for writing."""
        before = snapshot(directory)
        kwargs = {}
        if rng.random() < 0.3:
            kwargs['repair'] = True
        other = kind if rng.random() < 0.9 else rng.choice(KINDS)
        elsewhere = rng.random() < 0.3
        if elsewhere:
            result = in_child(lambda: try_open(other, path, **kwargs))
            env.count('attempts in another process')
        else:
            result = try_open(other, path, **kwargs)
        require(not result.startswith('error'), '%s', result)
        require(result.startswith('refused'),
                '%s: another %s was opened for writing%s', what, other,
                ' by another process' if elsewhere else '')
        after = snapshot(directory)
        require(before == after, '%s: the attempt to open it changed %s',
                what, difference(before, after))
        env.count('refused ' + what)
    opened = []
    def during_a_call(event):
        result = in_child(lambda: try_open(kind, path))
        env.count('attempts at calls during a pack')
        if not result.startswith('refused'):
            opened.append('%s: %s' % (event, result))
    def pack_step():
        result = Calls.watch(during_a_call, database.pack_step)
        require(not opened, 'during a step of a pack another process could '
                'open it for writing, at %s', opened)
        return result
    def look(what):
        """A readonly storage."""
        before = snapshot(directory)
        storage = open_storage(kind, path, readonly=True)
        try:
            use_readonly(rng, env, storage, database.lines[-1], what)
        finally:
            storage.close()
        after = snapshot(directory)
        require(before == after, '%s: a readonly storage changed %s',
                what, difference(before, after))
    def probe(what):
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.7:
                attempt(what)
            else:
                look(what)
    attempt('right after opening it')
    for _ in range(rng.randrange(2, 9)):
        n = rng.random()
        if n < 0.35:
            database.change()
            probe('with uncommitted changes')
            database.commit()
            probe('after a commit')
        elif n < 0.45:
            database.change()
            database.abort()
            probe('after an abort')
        elif n < 0.65:
            for _ in range(rng.choice([1, 3, 1000])):
                ended = pack_step()
                if not ended:
                    if rng.random() < 0.2:
                        probe('during a pack')
                    if rng.random() < 0.1:
                        database.change()
                        database.commit()
                        probe('after a commit during a pack')
                else:
                    probe('after a pack')
                    break
        elif n < 0.7:
            # A commit that fails.
            if database.packer is None:
                failed_commit(rng, env, database)
                probe('after a failed commit')
        elif n < 0.8:
            database.reopen()
            probe('after a reopen')
        elif n < 0.9:
            # Readonly storages that stay open.
            before = snapshot(directory)
            storage = open_storage(kind, path, readonly=True)
            env.cleanup(storage.close)
            intruders.append((storage, database.lines[-1]))
            require(snapshot(directory) == before,
                    'opening it readonly changed something')
            env.op('a reader')
            probe('with a reader')
        else:
            # The process that has it open dies.
            database.close()
            database.packer = None
            died(rng, env, kind, path, database)
            database.storage = open_storage(kind, path)
            database.connection = Connection(database.storage)
            database.twins.abort_model()
            database.twins.attach(database.connection)
            for m in list(twins.real):
                if m not in twins.stored:
                    del twins.real[m]
            twins.changed.clear()
            twins.check('state after the writer has died')
            probe('after the previous writer died')
    for storage, lines in intruders:
        storage.close()
    probe('after readers are closed')
    database.close()
    before = snapshot(directory)
    if rng.random() < 0.5:
        equal(try_open(kind, path), 'opened', 'opening a closed database')
    else:
        equal(in_child(lambda: try_open(kind, path)), 'opened',
              'opening a closed database in another process')
    require(snapshot(directory) == before, 'opening it changed something')
    env.count('opened after the writer closed it')
    database.storage = open_storage(kind, path)
    compare(canon_real(Connection(database.storage).get_root()),
            database.lines[-1], 'state at the end')


class Broken(PersistentDict):
    def __getstate__(self):
        raise ZeroDivisionError


def failed_commit(rng, env, database):
    env.op('failed commit')
    database.abort()
    database.connection.get_root()['broken'] = Broken()
    try:
        database.connection.commit()
    except ZeroDivisionError:
        env.count('failed commits')
    else:
        raise Violation('commit() ignored an exception')
    database.abort()


def died(rng, env, kind, path, database):
    """Another process opens it, perhaps packs, and is killed."""
    env.op('a writer dies')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            storage = open_storage(kind, path)
            connection = Connection(storage)
            connection.get_root()['uncommitted'] = 1
            if rng.random() < 0.5:
                connection.abort()
                packer = storage.get_packer()
                for _ in range(rng.choice([1, 3, 10, 1000])):
                    try:
                        next(packer)
                    except StopIteration:
                        break
            os.write(w, b'x')
            signal.pause()
        finally:
            os._exit(1)
    os.close(w)
    try:
        require(os.read(r, 1) == b'x', 'another process can not open a '
                'database that was closed')
        require(try_open(kind, path).startswith('refused'),
                'opened although another process has it open')
        env.count('refused while another process has it open')
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
    env.count('writers that died')


def use_readonly(rng, env, storage, lines, what):
    env.op('readonly', what)
    compare(canon_real(Connection(storage).get_root()), lines,
            '%s: state seen by a readonly storage' % what)
    env.count('readonly storages')
    n = rng.random()
    def refused(function, text):
        try:
            function()
        except Exception as e:
            env.count('refused by a readonly storage')
            return
        raise Violation('%s: a readonly storage did not refuse %s' % (
            what, text))
    if n < 0.4:
        connection = Connection(storage)
        root = connection.get_root()
        root['more'] = 1
        if rng.random() < 0.5:
            root['new'] = PersistentDict()
        refused(connection.commit, 'commit()')
        connection.abort()
    elif n < 0.7:
        def store():
            storage.begin()
            oid = storage.new_oid() if rng.random() < 0.5 else ROOT_OID
            record = storage.load(ROOT_OID)
            storage.store(oid, oid + record[8:])
            storage.end()
        refused(store, 'a new record')
        storage.begin()
    elif n < 0.9:
        try:
            storage.pack()
        except Exception:
            pass
        env.count('packs of readonly storages')
    compare(canon_real(Connection(storage).get_root()), lines,
            '%s: state seen by a readonly storage' % what)


def readonly_files(rng, env):
    """Opened readonly: nothing is created or changed, whatever is there."""
    kind = rng.choice(KINDS)
    directory = env.fresh('db')
    os.mkdir(directory)
    path = os.path.join(directory, 'data')
    case = rng.choice(['missing', 'empty', 'garbage', 'new', 'database'])
    env.op(kind, case)
    if case == 'empty':
        open(path, 'wb').close()
    elif case == 'garbage':
        with open(path, 'wb') as f:
            f.write(bytes(rng.randrange(256)
                          for _ in range(rng.randrange(1, 60))))
    elif case == 'new':
        open_storage(kind, path).close()
    elif case == 'database':
        storage = open_storage(kind, path)
        connection = Connection(storage)
        for i in range(rng.randrange(0, 4)):
            connection.get_root()[i] = PersistentDict(x=rng.random())
            connection.commit()
        if rng.random() < 0.4:
            storage.pack()
        storage.close()
        if rng.random() < 0.4:
            data = content(path)
            env.op('cut')
            with open(path, 'wb') as f:
                f.write(data[:rng.randrange(1, len(data))])
            case = 'cut'
    before = snapshot(directory)
    for _ in range(2):
        try:
            storage = open_storage(kind, path, readonly=True,
                                   repair=rng.random() < 0.3)
        except Exception:
            require(case not in ('new', 'database'),
                    'a readonly %s of a complete file can not be opened', kind)
            env.count('not opened readonly')
        else:
            require(case in ('new', 'database', 'cut'),
                    'a readonly %s was opened: %s', kind, case)
            env.count('opened readonly')
            try:
                connection = Connection(storage)
            except Exception:
                require(case != 'database', 'can not be read')
            else:
                connection.get_root()['x'] = PersistentDict()
                try:
                    connection.commit()
                except Exception:
                    pass
                else:
                    raise Violation('commit() to a readonly %s' % kind)
            storage.close()
        after = snapshot(directory)
        require(before == after, 'a readonly %s (%s) changed %s', kind, case,
                difference(before, after))
    env.count('readonly: ' + case)
