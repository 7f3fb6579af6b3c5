"""K08: the addresses of servers and their life cycle."""
import errno
import os
import signal
import socket
import stat
import subprocess
import sys
import threading
import time

from durus.client_storage import ClientStorage
from durus.connection import Connection
from durus.storage import MemoryStorage
from durus.storage_server import HostPortAddress, SocketAddress
from durus.storage_server import StorageServer, wait_for_server
from durus.storage_server import UnixAbstractAddress, UnixDomainSocketAddress

from vlib.case import Violation, Inconclusive, require, equal
from vlib.server import socket_directory
from vlib.storages import FILE_KINDS, open_storage

PATIENCE = 60
TOOL = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'vlib', 'tool.py')


def free_port(rng):
    while True:
        port = rng.randrange(10000, 32000) ^ (os.getpid() % 1024)
        s = socket.socket()
        try:
            s.bind(('127.0.0.1', port))
        except OSError:
            continue
        finally:
            s.close()
        return port


NAMES = [0]


def unused_name(env):
    NAMES[0] += 1
    return '%x-%x-%x' % (os.getpid(), NAMES[0], int(time.time() * 1e6))


class Place(object):
    """An address, and what the tool needs to be told about it."""

    def __init__(self, rng, env, kinds=('unix', 'unix', 'abstract', 'tcp')):
        self.kind = rng.choice(kinds)
        if self.kind == 'tcp':
            self.port = free_port(rng)
            self.arguments = ['--host', '127.0.0.1', '--port', str(self.port)]
            self.value = ('127.0.0.1', self.port)
        elif self.kind == 'abstract':
            self.name = '@vp-' + unused_name(env)
            self.arguments = ['--address', self.name]
            self.value = self.name
        else:
            self.name = os.path.join(socket_directory(env),
                                     's' + unused_name(env)[-12:])
            self.arguments = ['--address', self.name]
            self.value = self.name
        self.server = None # the live one

    def connect(self):
        s = SocketAddress.new(self.value).get_connected_socket()
        if s is not None:
            s.settimeout(PATIENCE)
        return s

    def client(self):
        address = SocketAddress.new(self.value)
        get = address.get_connected_socket
        def patient():
            s = get()
            if s is not None:
                s.settimeout(PATIENCE)
            return s
        address.get_connected_socket = patient
        return ClientStorage(address=address)

    def signature(self):
        """Identifies what is at the path."""
        if self.kind != 'unix':
            return None
        return look(self.name)


def look(path):
    try:
        s = os.lstat(path)
    except OSError:
        return None
    content = None
    if stat.S_ISREG(s.st_mode):
        with open(path, 'rb') as f:
            content = f.read()
    elif stat.S_ISLNK(s.st_mode):
        content = os.readlink(path)
    return s.st_ino, s.st_mode, s.st_uid, s.st_gid, s.st_size, content


class Database(object):

    def __init__(self, rng, env):
        self.kind = rng.choice(FILE_KINDS)
        self.path = env.fresh('db')
        self.n = 0
        storage = open_storage(self.kind, self.path)
        connection = Connection(storage)
        connection.get_root()['n'] = 0
        connection.commit()
        storage.close()
        self.servers = []

    def bytes(self):
        with open(self.path, 'rb') as f:
            return f.read()


class Process(object):

    def __init__(self, env, *args, **kwargs):
        self.log = env.fresh('log')
        with open(self.log, 'wb') as out:
            self.popen = subprocess.Popen(
                [sys.executable, TOOL, env.spec.get('ext_path') or '',
                 env.repo] + list(args),
                stdin=kwargs.pop('stdin', subprocess.DEVNULL), stdout=out,
                stderr=out, cwd=env.tmp, env=kwargs.pop('environ', None), **kwargs)
        env.cleanup(self.kill)

    def kill(self):
        if self.popen.poll() is None:
            self.popen.kill()
        self.popen.wait()

    def wait(self):
        try:
            return self.popen.wait(PATIENCE)
        except subprocess.TimeoutExpired:
            raise Violation('the process does not end:\n' + self.output())

    def running(self):
        return self.popen.poll() is None

    def output(self):
        with open(self.log, 'rb') as f:
            return f.read()[-3000:].decode('latin1')


class World(object):

    def __init__(self, rng, env):
        self.rng = rng
        self.env = env
        self.places = [Place(rng, env) for _ in range(rng.choice([1, 2]))]
        self.databases = [Database(rng, env)
                          for _ in range(rng.choice([1, 2]))]
        for place in self.places:
            env.op('address', place.kind)
        for database in self.databases:
            env.op('database', database.kind)

    def start(self, place, database, readonly=False, extra=()):
        env = self.env
        args = ['-s', '--file', database.path] + place.arguments + list(extra)
        if readonly:
            args.append('--readonly')
        can = place.server is None
        if not readonly and not all(x.readonly for x in database.servers):
            # There may be any number of readers.
            can = False
        before = place.signature()
        process = Process(env, *args)
        process.readonly = readonly
        process.n = database.n # what a reader sees
        env.op('start', place.kind, database.kind, readonly,
               'possible' if can else 'impossible')
        if not can:
            code = process.wait()
            require(code != 0, 'a server has been started in spite of '
                    'another one:\n%s', process.output())
            equal(place.signature(), before, 'the socket file after an '
                  'attempt to start a server that is impossible')
            env.count('impossible starts')
            self.check()
            return
        self.wait(process, place)
        place.server = process
        database.servers.append(process)
        process.database = database
        process.place = place
        env.count('starts')
        self.check()

    def wait(self, process, place):
        end = time.time() + PATIENCE
        while True:
            s = place.connect()
            if s is not None:
                s.close()
                break
            if not process.running():
                raise Violation('the server has not been started:\n' +
                                process.output())
            require(time.time() < end, 'the server is not reachable:\n%s',
                    process.output())
            time.sleep(0.005)
        wait_for_server(address=place.value, maxtries=1)

    def check(self):
        """Servers that should be alive are, and no others."""
        for place in self.places:
            if place.server is not None:
                require(place.server.running(), 'a server has ended:\n%s',
                        place.server.output())
                self.use(place, commit=False)
            else:
                s = place.connect()
                require(s is None, 'something listens at an address that '
                        'should be free')
        self.env.count('checks of all addresses')

    def use(self, place, commit=True):
        server = place.server
        database = server.database
        storage = place.client()
        try:
            connection = Connection(storage)
            root = connection.get_root()
            equal(root['n'], server.n if server.readonly else database.n,
                  'what a server has of a database')
            if commit:
                before = database.bytes()
                root['n'] = database.n + 1
                if server.readonly:
                    try:
                        connection.commit()
                    except Exception:
                        self.env.count('commits refused by readers')
                    else:
                        raise Violation('a readonly server took a commit')
                    equal(database.bytes(), before, 'a readonly server has '
                          'changed its file')
                else:
                    connection.commit()
                    database.n += 1
                    self.env.count('commits')
        finally:
            try:
                storage.close()
            except OSError:
                pass # The server hangs up when it refuses a commit.

    def end(self, place, how):
        process = place.server
        env = self.env
        env.op('end', place.kind, how)
        popen = process.popen
        if how in ('KILL', 'TERM', 'INT'):
            popen.send_signal(getattr(signal, 'SIG' + how))
        elif how == 'quit':
            s = place.connect()
            s.sendall(b'Q')
        else:
            tool = Process(env, '-s', '--stop', *place.arguments)
            code = tool.wait()
            equal(code, 0, 'exit code of the tool to stop a server')
            require(place.connect() is None, 'the tool to stop a server has '
                    'ended, and the server has not')
        process.wait()
        if how == 'quit':
            s.close()
        place.server = None
        process.database.servers.remove(process)
        if place.kind == 'unix' and how not in ('KILL', 'TERM'):
            require(look(place.name) is None, 'the socket file has been left '
                    'by a server that was stopped by %s', how)
        env.count('ends by ' + how)
        self.check()
        database = process.database
        if self.rng.random() < 0.3 and not database.servers:
            storage = open_storage(database.kind, database.path)
            equal(Connection(storage).get_root()['n'], database.n,
                  'what is in a database after its server')
            storage.close()

    def obstruct(self, place, database):
        """Other things at the path."""
        rng, env = self.rng, self.env
        what = rng.choice(sorted(OBSTACLES))
        if look(place.name) is not None:
            os.unlink(place.name) # stale
        OBSTACLES[what](place.name, env)
        before = look(place.name)
        env.op('obstacle', what)
        process = Process(env, '-s', '--file', database.path,
                          *place.arguments)
        code = process.wait()
        require(code != 0, 'a server has been started in spite of a %s', what)
        equal(look(place.name), before, 'a %s at the path of the socket', what)
        if stat.S_ISDIR(before[1]):
            os.rmdir(place.name)
        else:
            os.unlink(place.name)
        env.count('obstacles')
        self.check()


def make_file(content):
    def make(path, env):
        with open(path, 'wb') as f:
            f.write(content)
    return make


def make_link(path, env):
    os.symlink(env.fresh('missing'), path)


OBSTACLES = dict(file=make_file(b'something'), empty_file=make_file(b''),
                 directory=lambda path, env: os.mkdir(path),
                 fifo=lambda path, env: os.mkfifo(path),
                 link=make_link)


def processes(rng, env):
    world = World(rng, env)
    for step in range(rng.randrange(4, 12)):
        place = rng.choice(world.places)
        database = rng.choice(world.databases)
        n = rng.random()
        if place.server is None or n < 0.15:
            if (place.kind == 'unix' and place.server is None and
                not database.servers and rng.random() < 0.15):
                world.obstruct(place, database)
                continue
            if database.kind == 'SqliteStorage' and database.servers:
                continue # It has no lock.
            readonly = (database.kind != 'SqliteStorage' and
                        rng.random() < 0.2)
            world.start(place, database, readonly)
        elif n < 0.6:
            world.use(place)
        else:
            world.end(place, rng.choice(['KILL', 'KILL', 'TERM', 'INT',
                                         'quit', 'quit', 'stop']))
    for place in world.places:
        if place.server is not None:
            world.use(place)
            world.end(place, 'quit')
    for database in world.databases:
        storage = open_storage(database.kind, database.path)
        equal(Connection(storage).get_root()['n'], database.n,
              'what is in a database at the end')
        storage.close()
    env.count('servers used')


# In this process

class Serving(object):
    """A server in a thread."""

    def __init__(self, env, address, delay=None, rng=None):
        self.storage = MemoryStorage()
        Connection(self.storage)
        self.server = StorageServer(self.storage, address=address)
        self.error = None
        self.ended = False
        self.tracer = delay
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        if self.tracer is not None:
            sys.settrace(self.tracer)
        try:
            self.server.serve()
        except SystemExit:
            self.ended = True
        except OSError as e:
            self.error = e.errno
        except BaseException as e:
            self.error = repr(e)

    def wait(self, address):
        end = time.time() + PATIENCE
        while self.error is None:
            s = address.get_connected_socket()
            if s is not None:
                s.settimeout(PATIENCE)
                s.close()
                return True
            require(time.time() < end, 'the server is not reachable')
            time.sleep(0.0005)
        return False


def quit_server(address):
    s = address.get_connected_socket()
    require(s is not None, 'cannot connect to a server that runs')
    s.settimeout(PATIENCE)
    s.sendall(b'Q')
    return s


def slow(rng, probability, delay):
    """A trace function that delays lines of the server at random."""
    def trace(frame, event, arg):
        if 'storage_server' not in frame.f_code.co_filename:
            return None
        if event == 'line' and rng.random() < probability:
            time.sleep(delay)
        return trace
    return trace


def works(address, what):
    """What an operator means by: the server is there."""
    s = address.get_connected_socket()
    require(s is not None, '%s', what)
    s.settimeout(PATIENCE)
    s.sendall(b'V\x00\x00\x00\x01')
    got = s.recv(4)
    s.close()
    equal(got, b'\x00\x00\x00\x01', 'answer of the server')


def handover(rng, env):
    """
    The successor of a server is started (again and again) while it ends.
    """
    place = Place(rng, env)
    env.op('handover', place.kind, rng.random())
    address = SocketAddress.new(place.value)
    import random
    old = Serving(env, address, slow(random.Random(rng.random()),
                                     rng.choice([0, 0.1, 0.5, 1]),
                                     rng.choice([0.001, 0.004])))
    require(old.wait(address), 'the server did not start: %r', old.error)
    for turn in range(rng.randrange(1, 4)):
        s = quit_server(address)
        time.sleep(rng.choice([0, 0, 0.001, 0.005]))
        attempts = 0
        end = time.time() + PATIENCE
        while True:
            require(time.time() < end, 'no successor can be started')
            if rng.random() < 0.5:
                # As the tool does that stops a server.
                while True:
                    probe = address.get_connected_socket()
                    if probe is None:
                        break
                    probe.close()
            new_address = SocketAddress.new(place.value)
            new = Serving(env, new_address, slow(
                random.Random(rng.random()), rng.choice([0, 0.1, 0.5]), 0.001))
            attempts += 1
            # Ready, or given up.  The old one may answer still.
            started = False
            while new.error is None and not started:
                started = bool(new.server.sockets)
                time.sleep(0.0002)
            if started:
                break
            env.count('attempts refused')
        old.thread.join(PATIENCE)
        require(not old.thread.is_alive(), 'the server does not end')
        require(old.ended, 'the server ended by %r', old.error)
        require(new.thread.is_alive(), 'the new server has ended')
        works(address, 'the new server cannot be reached after the end of '
              'the old one')
        s.close()
        env.op('turn')
        env.count('handovers')
        old = new
    quit_server(address).close()
    old.thread.join(PATIENCE)
    require(address.get_connected_socket() is None, 'the address is not free')
    if place.kind == 'unix':
        require(look(place.name) is None, 'the socket file has been left')


def get_umask():
    current = os.umask(0)
    os.umask(current)
    return current


def sockets(rng, env):
    """Listening and connected sockets, without a server."""
    saved = get_umask()
    env.cleanup(lambda: os.umask(saved))
    kind = rng.choice(['unix', 'unix', 'unix', 'abstract', 'tcp', 'tcp6'])
    process_umask = rng.choice([0o022, 0o077, 0o002, 0])
    os.umask(process_umask)
    env.op(kind)
    if kind != 'unix':
        if kind == 'tcp6':
            try:
                s = socket.socket(socket.AF_INET6)
                s.bind(('::1', 0))
                port = s.getsockname()[1]
                s.close()
            except OSError:
                kind = 'tcp'
        if kind == 'tcp6':
            make = lambda: SocketAddress.new(('::1', port))
        elif kind == 'tcp':
            port = free_port(rng)
            make = lambda: SocketAddress.new(('127.0.0.1', port))
        else:
            name = '@vp-%s%s' % (unused_name(env), rng.choice(['', '@x']))
            make = lambda: SocketAddress.new(name)
        repeat(rng, env, make, kind)
        equal(get_umask(), process_umask, 'umask')
        return
    path = os.path.join(socket_directory(env), 's' + unused_name(env)[-10:])
    options = {}
    if rng.random() < 0.6:
        options['umask'] = rng.choice([0, 0o077, 0o177, 0o007, 0o777])
    may = may_chown(env)
    if may and rng.random() < 0.4:
        options['owner'] = rng.choice([65534, 'nobody', 'daemon', 0, 1000])
    if may and rng.random() < 0.4:
        options['group'] = rng.choice([65534, 'nogroup', 'daemon', 0, 1000])
    bad = rng.random()
    if bad < 0.1:
        options['owner'] = 'no such user'
    elif bad < 0.2:
        options['group'] = 'no such group'
    env.op('options', *['%s=%s' % item for item in sorted(options.items())])
    make = lambda: SocketAddress.new(path, **options)
    if 'no such user' in options.values() or (
        'no such group' in options.values()):
        try:
            make().get_listening_socket()
        except Exception as e:
            e = None
            env.count('impossible options')
        else:
            raise Violation('an impossible owner has been ignored')
        equal(get_umask(), process_umask, 'umask')
        options.clear()
    stale = rng.random() < 0.4
    if stale:
        s = socket.socket(socket.AF_UNIX)
        if look(path) is not None:
            os.unlink(path)
        s.bind(path)
        s.close()
        env.op('stale socket')
        env.count('stale sockets')
    def check(address):
        s = os.lstat(path)
        require(stat.S_ISSOCK(s.st_mode), 'there is no socket')
        mask = options.get('umask', process_umask)
        equal(oct(s.st_mode & 0o777), oct(0o777 & ~mask),
              'permissions of the socket')
        import grp
        import pwd
        uid = options.get('owner', os.geteuid())
        if isinstance(uid, str):
            uid = pwd.getpwnam(uid).pw_uid
        gid = options.get('group', os.getegid())
        if isinstance(gid, str):
            gid = grp.getgrnam(gid).gr_gid
        equal((s.st_uid, s.st_gid), (uid, gid), 'owner of the socket')
        require(path in str(address) if known(uid, gid) else True,
                'str() of an address is %s', address)
        equal(get_umask(), process_umask, 'umask')
    repeat(rng, env, make, kind, path, check)
    # Things that are no sockets.
    what = rng.choice(sorted(OBSTACLES))
    OBSTACLES[what](path, env)
    before = look(path)
    env.op('obstacle', what)
    try:
        make().get_listening_socket()
    except OSError:
        pass
    else:
        raise Violation('a %s has been replaced by a socket' % what)
    equal(look(path), before, 'a %s at the path of the socket', what)
    equal(get_umask(), process_umask, 'umask after a failure')
    require(what == 'fifo' or make().get_connected_socket() is None,
            'connected to a %s', what)
    if what == 'directory':
        os.rmdir(path)
    else:
        os.unlink(path)
    env.count('obstacles')


def may_chown(env):
    path = env.fresh('own')
    with open(path, 'w'):
        pass
    try:
        os.chown(path, 65534, 65534)
    except OSError:
        env.count('chown is not possible')
        return False
    return True


def known(uid, gid):
    import grp
    import pwd
    try:
        pwd.getpwuid(uid)
        grp.getgrgid(gid)
    except KeyError:
        return False
    return True


def repeat(rng, env, make, kind, path=None, check=None):
    """Listen, connect and close several times."""
    for turn in range(rng.randrange(1, 4)):
        address = make()
        require(address.get_connected_socket() is None,
                'connected, and nobody listens')
        try:
            wait_for_server(address=make(), maxtries=2, sleeptime=0)
        except SystemExit:
            pass
        else:
            raise Violation('wait_for_server() returned without a server')
        listening = address.get_listening_socket()
        env.op('listen')
        if check is not None:
            check(address)
        before = look(path) if path is not None else None
        wait_for_server(address=make(), maxtries=1)
        listening.accept()[0].close()
        # Somebody else tries the same address.
        for _ in range(rng.randrange(3)):
            try:
                make().get_listening_socket()
            except OSError as e:
                equal(e.errno, errno.EADDRINUSE, 'error')
            else:
                raise Violation('two sockets listen at the same address')
            if path is not None:
                equal(look(path), before, 'socket file')
                listening.settimeout(PATIENCE)
                listening.accept()[0].close() # A probe is no harm.
            env.count('second listeners')
            env.op('second')
        client = make().get_connected_socket()
        require(client is not None, 'the address is not reachable')
        client.settimeout(PATIENCE)
        conn, _ = listening.accept()
        conn.settimeout(PATIENCE)
        client.sendall(b'hello')
        equal(conn.recv(5), b'hello', 'data sent to the address')
        conn.close()
        client.close()
        env.count('connections')
        str(address)
        if path is not None and rng.random() < 0.4:
            listening.close() # like a server that is killed
            env.op('killed')
            env.count('stale sockets')
            equal(look(path), before, 'socket file')
        else:
            address.close(listening)
            if path is not None:
                require(look(path) is None, 'the socket file has been left')
    require(make().get_connected_socket() is None, 'the address is not free')
    if path is not None and look(path) is not None:
        os.unlink(path)


# Sockets of systemd

def inherited(rng, env):
    """A server on a socket that it gets from the process that starts it."""
    place = Place(rng, env, kinds=('unix', 'abstract', 'tcp'))
    database = Database(rng, env)
    address = SocketAddress.new(place.value)
    listening = address.get_listening_socket()
    env.cleanup(listening.close)
    env.op('inherited', place.kind, database.kind)
    fd = listening.fileno()
    def pass_socket():
        os.dup2(fd, 3)
        os.set_inheritable(3, True)
    before = place.signature()
    for turn in range(rng.randrange(1, 4)):
        if rng.random() < 0.5:
            # Somebody connects before it is started.
            early = place.connect()
        else:
            early = None
        extra = rng.choice([[], ['--logginglevel', '5'],
                            ['--logginglevel', '20']])
        process = Process(env, '--listen', '-s', '--file', database.path,
                          *(['--port', '1'] + extra),
                          preexec_fn=pass_socket, close_fds=False)
        storage = place.client()
        connection = Connection(storage)
        root = connection.get_root()
        equal(root['n'], database.n, 'root')
        root['n'] += 1
        connection.commit()
        database.n += 1
        storage.close()
        if early is not None:
            early.sendall(b'V\x00\x00\x00\x01')
            equal(early.recv(4), b'\x00\x00\x00\x01', 'answer of the server')
            early.close()
        how = rng.choice(['quit', 'KILL'])
        env.op('turn', how, *extra)
        if how == 'quit':
            s = place.connect()
            s.sendall(b'Q')
            process.wait()
            s.close()
        else:
            process.popen.kill()
            process.wait()
        require('Traceback' not in process.output(), 'the server complained:'
                '\n%s', process.output())
        equal(place.signature(), before, 'the socket of the other process')
        env.count('servers on inherited sockets')
    listening.close()


# The interactive client

def interactive(rng, env):
    database = Database(rng, env)
    over = rng.choice(['file', 'server'])
    env.op('interactive', over, database.kind)
    args = ['-c']
    if over == 'file':
        args += ['--file', database.path]
    else:
        world = World(rng, env)
        world.databases = [database]
        place = world.places[0]
        world.start(place, database)
        args += place.arguments
    lines = []
    values = {}
    for n in range(rng.randrange(1, 6)):
        values[n] = rng.randrange(1000)
        lines.append('root[%d] = %d' % (n, values[n]))
    lines.append('connection.commit()')
    lines.append('root["lost"] = 1')
    if rng.random() < 0.5:
        startup = env.fresh('startup')
        with open(startup, 'w') as f:
            f.write('root["startup"] = 7\n')
        args += ['--startup', startup]
        values['startup'] = 7
    source = env.fresh('stdin')
    with open(source, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    home = env.fresh('home')
    os.mkdir(home)
    with open(source) as f:
        process = Process(env, *args, stdin=f,
                          environ=dict(os.environ, HOME=home))
        process.wait()
    if over == 'file':
        storage = open_storage(database.kind, database.path)
    else:
        storage = place.client()
    values['n'] = 0
    equal(dict(Connection(storage).get_root().items()), values,
          'root after the interactive client said:\n%s' % process.output())
    storage.close()
    if over == 'server':
        world.end(place, 'quit')
    env.count('interactive clients')


def process_cases(rng, env):
    n = rng.random()
    if n < 0.15:
        interactive(rng, env)
    elif n < 0.4:
        inherited(rng, env)
    else:
        processes(rng, env)
