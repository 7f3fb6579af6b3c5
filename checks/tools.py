"""
T01: the tools and the ways to move records between storages preserve the
object graph.
"""
import contextlib
import datetime
import gc
import io
import os
import pickle
import runpy
import struct
import subprocess
import sys
import time
import zlib

from durus.connection import Connection, touch_every_reference
from durus.connection import gen_every_instance
from durus.error import DurusKeyError
from durus.persistent import PersistentObject
from durus.persistent_dict import PersistentDict
from durus.serialize import pack_record
from durus.utils import int8_to_str, str_to_int8

from checks.conn import Program, run_program
from vlib import classes, records
from vlib.case import Violation, require, equal
from vlib.server import Server, Tcp
from vlib.storages import FILE_KINDS, CLASSES, open_storage
from vlib.twins import Canon, canon_model, canon_real, compare

ROOT_OID = b'\0' * 8
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def content(path):
    with open(path, 'rb') as f:
        return f.read()


@contextlib.contextmanager
def arguments(*argv):
    saved = sys.argv
    sys.argv = list(argv)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    finally:
        sys.argv = saved


def some_history(rng, env, kinds, **kwargs):
    """A program that has committed everything and closed its database."""
    program = Program(rng, env, kinds=kinds, **kwargs)
    run_program(program, rng.randrange(1, 10), probability=0)
    program.commit()
    program.close()
    return program


def graph_of(storage, **kwargs):
    return canon_real(Connection(storage, **kwargs).get_root())


def all_records(storage):
    return dict(storage.gen_oid_record())


# Renumbering

def count_live(program):
    storage = open_storage(program.kind, program.path)
    try:
        return len(records.scan(storage))
    finally:
        storage.close()


def renumber(rng, env):
    # Plain pickle is recursive, so the graph must not be deep.
    program = some_history(rng, env, ['FileStorage'],
                           max_objects=rng.choice([5, 20, 60]))
    expected = canon_model(program.twins.root)
    old = program.path
    live = count_live(program)
    new = env.fresh('renumbered')
    before = content(old)
    env.op('renumber', live)
    with arguments('db_renumber.py', old, new):
        runpy.run_path(os.path.join(env.repo, 'bin', 'db_renumber.py'),
                       run_name='__main__')
    gc.collect() # The tool closes nothing.
    equal(content(old), before, 'renumbering has changed the old file')
    storage = open_storage('FileStorage', new)
    env.cleanup(storage.close)
    compare(graph_of(storage), expected,
            'the renumbered database has another state')
    oids = sorted(str_to_int8(oid) for oid in all_records(storage))
    equal(oids, list(range(live)), 'oids of the renumbered database')
    found = records.scan(storage)
    equal(len(found), live, 'reachable objects')
    root_class = classes.Dict2 if program.root_class else None
    if root_class is not None:
        require(type(Connection(storage).get_root()) is root_class,
                'the root of the renumbered database is a %s',
                type(Connection(storage).get_root()))
    go_on(rng, env, storage, program, expected)
    env.count('databases renumbered')
    env.count('objects renumbered', live)
    env.nontrivial = live > 2


def go_on(rng, env, storage, program, expected):
    """The new database works like the old one."""
    twins = program.twins
    connection = Connection(storage, cache_size=rng.choice([1, 5, 1000]))
    stored_before = set(all_records(storage))
    oid = storage.new_oid()
    require(oid not in stored_before, 'new_oid() gave %r, which is in use', oid)
    twins.abort_model()
    twins.attach(connection)
    for m in list(twins.real):
        if m not in twins.stored:
            del twins.real[m]
    twins.changed.clear()
    # Objects that are stored and that nobody refers to are not everywhere.
    twins.drop_unreachable()
    for _ in range(rng.randrange(1, 8)):
        twins.mutate()
    env.op('commit to the new database')
    connection.commit()
    twins.commit_model()
    twins.check('the new database does not work')
    twins.check('a commit to the new database is not seen by others',
                Connection(storage))
    records.scan(storage)
    env.count('new databases used')


# Records of one storage in another one

WAYS = ['FileStorage2.create_from_records', 'SqliteStorage.create_from_records',
        'transaction', 'transactions', 'Shelf']


def copies(rng, env):
    program = some_history(rng, env, FILE_KINDS)
    twins = program.twins
    expected = canon_model(twins.root)
    source = open_storage(program.kind, program.path)
    env.cleanup(source.close)
    before = all_records(source)
    way = rng.choice(WAYS)
    usable = False
    only_reachable = rng.random() < 0.5
    env.op('copy', program.kind, way, only_reachable, len(before))
    if only_reachable:
        items = source.gen_oid_record(start_oid=ROOT_OID)
    else:
        items = source.gen_oid_record()
    path = env.fresh('copy')
    wanted = dict(before)
    if only_reachable:
        found = records.scan(source)
        wanted = dict((oid, before[oid]) for oid in found)
    if way.endswith('create_from_records'):
        kind = way.split('.')[0]
        target = open_storage(kind, path)
        target.create_from_records(items)
        usable = True
        if rng.random() < 0.5:
            target.close()
            target = None
    elif way == 'Shelf':
        from durus.shelf import Shelf
        from durus.file import File
        kind = 'FileStorage'
        file = File(path)
        for step in Shelf.generate_shelf(file, items):
            pass
        file.flush()
        file.close()
        target = None
    else:
        kind = rng.choice(['FileStorage2', 'SqliteStorage'])
        target = open_storage(kind, path)
        target.begin()
        for n, (oid, record) in enumerate(items):
            target.store(oid, record)
            if way == 'transactions' and n % 3 == 2:
                target.end()
                target.begin()
        target.end()
        if rng.random() < 0.5:
            target.close()
            target = None
    reopened = target is None
    if reopened:
        target = open_storage(kind, path)
    env.cleanup(target.close)
    equal(all_records(source), before, 'copying has changed the source')
    copied = all_records(target)
    equal(sorted(copied), sorted(wanted), 'oids of the copy')
    for oid, record in wanted.items():
        if copied[oid] != record:
            # Sqlite keeps the references apart, they are the same all the same.
            equal(records_equal(copied[oid]), records_equal(record),
                  'the copy of %r', oid)
        equal(target.load(oid), copied[oid], 'load(%r) of the copy', oid)
    compare(graph_of(target), expected, 'the copy has another state')
    if reopened or usable:
        go_on(rng, env, target, program, expected)
    env.count('databases copied')
    env.count('records copied', len(wanted))
    env.count('copies by %s' % way)
    env.nontrivial = len(wanted) > 2


def records_equal(record):
    oid, klass, state, found, stored = records.parse(record)
    n = int.from_bytes(record[8:12], 'big')
    return oid, record[12:12 + n], sorted(stored)


# Renaming classes

class Before(classes.Node):
    pass


class BeforeLeaf(Before):
    pass


def plain(v):
    if isinstance(v, classes.Plain):
        return ('Plain', plain(v.__dict__))
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    return v


def describe_any(obj):
    if isinstance(obj, PersistentDict):
        state = dict(obj.items())
    elif isinstance(obj, classes.Slotted):
        state = dict(a=getattr(obj, 'a', None))
    else:
        state = dict(obj.__dict__)
    return type(obj).__name__, plain(state)


def graph_of_any(storage):
    canon = Canon(describe_any, lambda v: isinstance(v, PersistentObject))
    return canon(Connection(storage).get_root())


def renaming(rng, env):
    """
    Objects of classes that have moved; touch_every_reference() and a commit
    leave nothing that mentions the old name.
    """
    kind = rng.choice(FILE_KINDS)
    path = env.fresh('db')
    storage = open_storage(kind, path)
    env.cleanup(storage.close)
    env.op('open', kind)
    connection = Connection(storage)
    root = connection.get_root()
    objects = [root]
    def fill(value, depth=0):
        n = rng.random()
        if n < 0.3:
            return rng.choice(objects[1:] or [7])
        if n < 0.5:
            return 'text ' * rng.choice([0, 1, 1000])
        if n < 0.6:
            return os.urandom(0) + bytes(rng.randrange(256)
                                        for _ in range(40))
        if n < 0.7:
            return classes.Plain(a=rng.randrange(9))
        if n < 0.8 and depth < 3:
            return [fill(value, depth + 1) for _ in range(3)]
        if n < 0.9:
            return BeforeLeaf # the class itself is a value
        return rng.randrange(1000)
    for n in range(rng.randrange(3, 40)):
        klass = rng.choice([Before, BeforeLeaf, classes.Node, classes.Leaf,
                            classes.Dict2, classes.Slotted])
        obj = klass()
        if isinstance(obj, classes.Dict2):
            for i in range(rng.randrange(4)):
                obj[i] = fill(obj)
        elif isinstance(obj, classes.Slotted):
            obj.a = fill(obj)
        else:
            for i in range(rng.randrange(4)):
                setattr(obj, 'v%d' % i, fill(obj))
        objects.append(obj)
        env.op('object', klass.__name__)
        if rng.random() < 0.7:
            root[n] = obj
        if rng.random() < 0.2:
            connection.commit()
    connection.commit()
    root = objects = obj = None
    if rng.random() < 0.5:
        connection.pack()
    words = rng.choice([['BeforeLeaf'], ['Before'], ['tools'], ['Plain'],
                        ['text'], ['nowhere to be found'],
                        ['BeforeLeaf', 'Slotted'], ['Before', 'BeforeLeaf'],
                        [], [b'Leaf']])
    env.op('touch', *[str(w) for w in words])
    raw = [w if isinstance(w, bytes) else w.encode() for w in words]
    expected = set(oid for oid, record in storage.gen_oid_record()
                   if any(mentions(record, w) for w in raw))
    every = all_records(storage)
    rename = words and rng.random() < 0.6
    graph = graph_of_any(storage)
    # A new program, where the classes have another name.
    storage.close()
    storage = open_storage(kind, path)
    env.cleanup(storage.close)
    connection = Connection(storage, cache_size=rng.choice([1, 5, 1000]))
    if rng.random() < 0.3:
        connection.get_root().keys()
        for obj in connection.get_root().values():
            getattr(obj, 'v0', None)
    if rename:
        Before.__name__ = Before.__qualname__ = 'After'
        BeforeLeaf.__name__ = BeforeLeaf.__qualname__ = 'AfterThat'
        globals()['After'] = Before
        globals()['AfterThat'] = BeforeLeaf
    try:
        stored = []
        store = storage.store
        def spy(oid, record):
            stored.append(oid)
            return store(oid, record)
        storage.store = spy
        touch_every_reference(connection, *words)
        connection.commit()
        del storage.store
        equal(sorted(stored), sorted(expected),
              'objects stored after touch_every_reference(%s)' % words)
        after = all_records(storage)
        equal(sorted(after), sorted(every), 'oids')
        for oid in every:
            if oid not in expected:
                equal(after[oid], every[oid], 'record of %r', oid)
        if rename and b'Before' in raw:
            for oid, record in after.items():
                require(not mentions(record, b'Before'), 'the record of %r '
                        'still mentions the old name', oid)
            env.count('classes renamed')
    finally:
        Before.__name__ = Before.__qualname__ = 'Before'
        BeforeLeaf.__name__ = BeforeLeaf.__qualname__ = 'BeforeLeaf'
    def names(lines):
        return [line.replace('AfterThat', 'BeforeLeaf').replace(
            'After', 'Before') for line in lines]
    compare(names(graph_of_any(storage)), graph, 'the state has changed')
    globals().pop('After', None)
    globals().pop('AfterThat', None)
    env.count('objects touched', len(expected))
    env.count('databases touched')
    env.nontrivial = len(every) > 2


def mentions(record, word):
    """In the pickles of the class or the state, and not by chance."""
    import pickle
    import zlib
    n = int.from_bytes(record[8:12], 'big')
    data = record[12:12 + n]
    file = io.BytesIO(data)
    pickle.Unpickler(file).load()
    at = file.tell()
    rest = data[at:]
    if rest[:1] == b'\x78':
        rest = zlib.decompress(rest)
    return word in data[:at] or word in rest


# The command line tool and the recognition of files

def command_line(rng, env):
    program = some_history(rng, env, FILE_KINDS)
    twins = program.twins
    kind, path = program.kind, program.path
    expected = canon_model(twins.root)
    live = count_live(program)
    import durus.__main__
    equal(durus.__main__.get_storage_class(path), CLASSES[kind],
          'the class for a file of a %s' % kind)
    over = rng.choice(['file', 'server', 'module'])
    env.op('pack', kind, over)
    if over == 'file':
        with arguments('durus', '-p', '--file', path):
            durus.__main__.main()
    elif over == 'module':
        with arguments('durus', '-p', '--file=' + path):
            runpy.run_path(os.path.join(env.repo, 'bin', 'durus'),
                           run_name='__main__')
    else:
        address = Tcp()
        server = Server(env, kind, path, address)
        server.free_running = True
        with arguments('durus', '-p', '--port', str(address.port),
                       '--host', '127.0.0.1'):
            durus.__main__.main()
        end = time.time() + 60
        while not server.finished_packs:
            server.check()
            require(time.time() < end, 'the server does not pack')
            time.sleep(0.002)
        server.stop()
    gc.collect()
    with arguments('durus'):
        storage = durus.__main__.get_storage(path)
    env.cleanup(storage.close)
    equal(type(storage), CLASSES[kind], 'class of the storage')
    compare(graph_of(storage), expected, 'packing has changed the state')
    equal(len(all_records(storage)), live,
          'number of records after packing')
    go_on(rng, env, storage, program, expected)
    env.count('packs by the tool')
    env.count('packs by the tool over ' + over)
    storage.close()
    recognition(rng, env, kind, path)


def other_files(rng, env, path):
    """Things that are no database of the given kind."""
    real = content(path)
    yield 'garbage', bytes(rng.randrange(256) for _ in range(
        rng.choice([1, 5, 19, 20, 21, 500])))
    yield 'text', b'This is somebody\'s diary.\n' * rng.choice([1, 200])
    yield 'zeros', b'\0' * rng.choice([1, 8, 100, 5000])
    yield 'nearly', bytes([real[0] ^ 1]) + real[1:]
    n = rng.randrange(1, 5)
    yield 'nearly', real[:n] + bytes([real[n] ^ 0x20]) + real[n + 1:]
    yield 'shifted', real[1:]
    yield 'magic only', rng.choice([b'DFS20\n', b'SHELF-2\n', b'SQLite'])


def recognition(rng, env, kind, path):
    import durus.__main__
    for what, data in other_files(rng, env, path):
        other = env.fresh('other')
        with open(other, 'wb') as f:
            f.write(data)
        env.op('not a database', what, len(data))
        for way in ('class', 'tool', 'open', 'repair', 'FileStorage',
                    'FileStorage2', 'SqliteStorage'):
            if what == 'magic only' and way == 'class':
                continue
            try:
                with arguments('durus', '-p', '--file', other):
                    if way == 'class':
                        durus.__main__.get_storage_class(other)
                    elif way == 'tool':
                        durus.__main__.main()
                    elif way == 'open':
                        durus.__main__.get_storage(other)
                    elif way == 'repair':
                        durus.__main__.get_storage(other, repair=True)
                    elif way == 'SqliteStorage':
                        s = open_storage(way, other)
                        Connection(s)
                        s.close()
                    else:
                        open_storage(way, other, repair=rng.random() < 0.3)
            except Exception as e:
                env.count('refusals')
                e = None
            else:
                raise Violation('%s (%s) has been accepted as a database by '
                                '%s' % (what, data[:30], way))
            equal(content(other), data, 'a file that is no database has been '
                  'changed by %s', way)
            for suffix in ('-journal', '-wal', '-shm', '.pack', '.prepack'):
                require(not os.path.exists(other + suffix),
                        '%s%s has been made', other, suffix)
        os.remove(other)
    # A database of another kind.
    data = content(path)
    for wrong in FILE_KINDS:
        if wrong == kind:
            continue
        try:
            s = open_storage(wrong, path)
            Connection(s)
        except Exception:
            env.count('refusals')
        else:
            raise Violation('a file of %s has been opened by %s' % (
                kind, wrong))
        equal(content(path), data, 'a file of %s has been changed by %s',
              kind, wrong)
    # A file that is not there.
    missing = env.path('nothing here')
    equal(durus.__main__.get_storage_class(missing).__name__, 'FileStorage',
          'the class for a new file')
    require(not os.path.exists(missing), 'get_storage_class() made a file')
    s = open_storage(kind, path)
    s.close()


# Databases of Python 2

class Python2Pickler(pickle._Pickler):
    """Writes strings as Python 2 did."""

    dispatch = dict(pickle._Pickler.dispatch)

    def __init__(self, file, written):
        pickle._Pickler.__init__(self, file, 2)
        self.written = written

    def binstring(self, obj, data):
        if len(data) < 256:
            self.write(pickle.SHORT_BINSTRING + bytes([len(data)]) + data)
        else:
            self.write(pickle.BINSTRING + struct.pack('<i', len(data)) + data)
        self.memoize(obj)

    def save_str(self, obj):
        try:
            data = obj.encode('ascii')
        except UnicodeEncodeError:
            pickle._Pickler.save_str(self, obj)
        else:
            self.written[0] += 1
            self.binstring(obj, data)
    dispatch[str] = save_str

    def save_bytes(self, obj):
        if isinstance(obj, Oid):
            self.binstring(obj, bytes(obj))
        else:
            pickle._Pickler.save_bytes(self, obj)
    dispatch[bytes] = save_bytes

    def save_datetime(self, obj):
        data = obj.__reduce__()[1][0]
        self.save(type(obj))
        self.binstring(Oid(data), data)
        self.write(pickle.TUPLE1 + pickle.REDUCE)
        self.memoize(obj)
    dispatch[datetime.date] = dispatch[datetime.datetime] = save_datetime

    def persistent_id(self, obj):
        if isinstance(obj, records.Ref):
            return Oid(obj.oid), obj.klass


class Oid(bytes):
    pass

Python2Pickler.dispatch[Oid] = Python2Pickler.save_bytes


def python2_record(record, written, extra, rng):
    oid, klass, state, found, stored = records.parse(record)
    if oid == ROOT_OID:
        state = dict(state, data=dict(state['data'], **extra))
    file = io.BytesIO()
    pickler = Python2Pickler(file, written)
    pickler.dump(klass)
    n = file.tell()
    pickler.dump(state)
    data = file.getvalue()
    head, tail = data[:n], data[n:]
    if rng.random() < 0.8:
        tail = zlib.compress(tail)
    return pack_record(oid, head + tail, b''.join(stored))


def conversion(rng, env):
    """bin/db_to_py3k.py"""
    program = some_history(rng, env, FILE_KINDS,
                           max_objects=rng.choice([5, 20, 60]))
    expected = canon_model(program.twins.root)
    extra = {}
    for n in range(rng.randrange(3)):
        extra['date%s' % n] = rng.choice([
            datetime.date(rng.randrange(1, 9999), 2, 28),
            datetime.datetime(rng.randrange(1, 9999), 12, 31, 23, 59, 58,
                              rng.randrange(10 ** 6))])
    source = open_storage(program.kind, program.path)
    kind = rng.choice(FILE_KINDS)
    old = env.fresh('python2')
    target = open_storage(kind, old)
    written = [0]
    target.begin()
    every = sorted(all_records(source).items())
    last = max(str_to_int8(oid) for oid, record in every)
    for _ in range(last + 1):
        target.new_oid()
    for oid, record in every:
        target.store(oid, python2_record(record, written, extra, rng))
    target.end()
    target.close()
    source.close()
    before = content(old)
    new = env.fresh('python3')
    exists = rng.random() < 0.2
    if exists:
        with open(new, 'wb') as f:
            f.write(b'something else')
    env.op('convert', kind, len(every), written[0], sorted(extra), exists)
    import durus.persistent
    ext_path = env.spec.get('ext_path') or ''
    done = subprocess.run(
        [sys.executable, os.path.join(HERE, 'vlib', 'tool.py'), ext_path,
         env.repo, '--script',
         os.path.join(env.repo, 'bin', 'db_to_py3k.py'), old, new],
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, input=b'y\n', timeout=300, cwd=env.tmp)
    text = done.stdout.decode('utf8', 'replace')
    require(done.returncode == 0, 'db_to_py3k.py failed: %s', text[-2000:])
    equal(content(old), before, 'the conversion has changed the old file')
    storage = open_storage(kind, new)
    env.cleanup(storage.close)
    connection = Connection(storage)
    root = connection.get_root()
    for name, value in extra.items():
        found = root.pop(name)
        equal((type(found), found), (type(value), value), 'a date')
    connection.commit()
    compare(canon_real(root), expected, 'the converted database has another '
            'state')
    records.scan(storage)
    go_on(rng, env, storage, program, expected)
    env.count('databases converted')
    env.count('strings converted', written[0])
    env.nontrivial = len(every) > 2
