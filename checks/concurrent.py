"""
K01-K03, K05, K07: a server process and client processes that really run
concurrently.  Every client writes a log of what it has read and written and
when; afterwards the logs are judged together.

Every register has one value at a time, the name of the transaction that wrote
it, and every value tells which one it replaced.
"""
import errno
import gc
import json
import os
import random
import signal
import time
import traceback

from durus.client_storage import ClientStorage
from durus.connection import Connection
from durus.error import ConflictError
from durus.persistent import Persistent
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.storage import MemoryStorage
from durus.storage_server import StorageServer, UnixDomainSocketAddress

from vlib.case import Inconclusive, Violation, require
from vlib.server import socket_directory
from vlib.storages import FILE_KINDS, open_storage

PATIENCE = 100


class Register(Persistent):

    def __init__(self, value, replaced):
        self.value = value
        self.replaced = replaced


def run_server(kind, path, address, gcbytes):
    if kind == 'MemoryStorage':
        storage = MemoryStorage()
    elif kind == 'SqliteStorage':
        storage = open_storage(kind, path)
    else:
        storage = open_storage(kind, path, repair=True)
    StorageServer(storage, address=address, gcbytes=gcbytes).serve()


def start(f, *args):
    """-> pid of a process that carries out f(*args)"""
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        f(*args)
        code = 0
    except SystemExit:
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(code)


def connected(address, deadline):
    while 1:
        try:
            storage = ClientStorage(address=address)
            storage.s.settimeout(PATIENCE)
            return storage
        except (AssertionError, OSError, EOFError):
            if time.time() > deadline:
                raise
            time.sleep(0.003)


def get(connection, i):
    """-> Register"""
    slots = connection.get_root()['slots']
    return slots[i // 8][i % 8]


class Client(object):

    def __init__(self, seed, number, address, path, settings):
        self.rng = random.Random(seed)
        self.number = number
        self.address = address
        self.log = open(path, 'w')
        self.settings = settings
        self.serial = 0

    def emit(self, **item):
        self.log.write(json.dumps(item) + '\n')
        self.log.flush()

    def run(self):
        settings = self.settings
        deadline = time.time() + PATIENCE
        left = settings['transactions']
        while left > 0 and time.time() < deadline:
            began = time.monotonic()
            try:
                storage = connected(self.address, deadline)
                connection = Connection(
                    storage, cache_size=self.rng.choice([1, 5, 1000]))
                while left > 0:
                    left -= 1
                    began = self.transaction(connection, began)
            except (OSError, EOFError) as e:
                if not settings['kills']:
                    raise
                self.emit(lost=str(e))
            connection = storage = None
            gc.collect()
        self.emit(end=True)

    def transaction(self, connection, began):
        """-> when the next transaction began"""
        rng = self.rng
        settings = self.settings
        self.serial += 1
        me = '%s.%s' % (self.number, self.serial)
        reads = {}
        writes = {}
        item = dict(name=me, began=began, reads=reads, writes=writes)
        def read(i):
            register = get(connection, i)
            value = register.value
            if i in writes:
                if value != me:
                    item['strange'] = '%s is %s, although set to %s' % (
                        i, value, me)
            elif reads.setdefault(i, value) != value:
                item['strange'] = '%s is %s, it was %s' % (i, value, reads[i])
            return register
        kind = rng.choice(['read', 'read', 'write', 'write', 'write', 'abort',
                           'pack' if settings['packs'] else 'write'])
        def step():
            i = self.pick()
            register = read(i)
            if rng.random() < 0.2:
                time.sleep(rng.choice([0, 0.0005, 0.002]))
            if kind != 'read' and rng.random() < 0.5 and i not in writes:
                replaced = register.value
                if rng.random() < 0.3:
                    # The old one becomes garbage.
                    slots = connection.get_root()['slots']
                    slots[i // 8][i % 8] = Register(me, replaced)
                else:
                    register.value = me
                    register.replaced = replaced
                writes[i] = replaced
        item['kind'] = kind
        outcome = 'conflict'
        try:
            for _ in range(rng.choice([1, 2, 3, 6, 12])):
                try:
                    step()
                except ConflictError:
                    if rng.random() < 0.7 or kind != 'write':
                        raise
                    # A program should call abort() now.  If it does not, it
                    # can't commit what it has read.
                    item['went_on'] = True
                except AssertionError:
                    if 'went_on' not in item:
                        raise
                    raise ConflictError([])
            called = item['called'] = time.monotonic()
            outcome = 'unknown'
            if kind == 'abort' or (kind == 'read' and rng.random() < 0.5):
                connection.abort()
                outcome = 'aborted'
            elif kind == 'pack':
                connection.pack()
                outcome = 'aborted'
            else:
                if writes:
                    # This may be the end.
                    self.emit(outcome='unknown', **item)
                try:
                    connection.commit()
                    outcome = 'committed'
                except (ConflictError, AssertionError) as e:
                    if not isinstance(e, ConflictError):
                        if 'went_on' not in item:
                            raise
                    outcome = 'conflict'
                    called = time.monotonic()
                    connection.abort()
            item['returned'] = time.monotonic()
        except ConflictError:
            called = item['called'] = time.monotonic()
            connection.abort()
            item['returned'] = time.monotonic()
        except (OSError, EOFError):
            item.setdefault('called', time.monotonic())
            raise
        finally:
            item['outcome'] = outcome
            self.emit(**item)
        if rng.random() < 0.02:
            time.sleep(0.01)
        return called

    def pick(self):
        return self.settings['start'] + int(
            self.settings['registers'] * self.rng.random() ** 2)


def ended(pid, deadline):
    """Wait for a process -> its status, or None if it does not end"""
    while time.time() < deadline:
        found, status = os.waitpid(pid, os.WNOHANG)
        if found:
            return status
        time.sleep(0.003)


def processes(rng, env, prop, packs):
    directory = socket_directory(env)
    address = os.path.join(directory, 's%s' % rng.randrange(10 ** 6))
    kind = rng.choice(['MemoryStorage'] + FILE_KINDS)
    kills = kind != 'MemoryStorage' and rng.random() < 0.3
    path = env.fresh('db')
    registers = rng.choice([1, 3, 8, 40])
    settings = dict(
        registers=registers, start=0, kills=kills, packs=packs,
        transactions=rng.choice([20, 60, 120]))
    gcbytes = rng.choice([0, 500, 20000]) if packs else 0
    n = rng.choice([2, 3, 4, 6])
    env.op(kind, n, 'clients', sorted(settings.items()), gcbytes,
           rng.random())
    running = set()
    def finish():
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError as e:
                if e.errno != errno.ESRCH:
                    raise
            os.waitpid(pid, 0)
        running.clear()
    env.cleanup(finish)
    def serve():
        pid = start(run_server, kind, path, address, gcbytes)
        running.add(pid)
        return pid
    server = serve()
    storage = connected(address, time.time() + PATIENCE)
    connection = Connection(storage)
    slots = PersistentList()
    for i in range(registers):
        if i % 8 == 0:
            slots.append(PersistentList() if rng.random() < 0.5 else
                         PersistentDict())
        if isinstance(slots[-1], PersistentList):
            slots[-1].append(Register('init', None))
        else:
            slots[-1][i % 8] = Register('init', None)
    connection.get_root()['slots'] = slots
    connection.commit()
    clients = []
    logs = []
    killed = set()
    def new_client():
        number = len(logs)
        client = Client(rng.random(), number, address,
                        os.path.join(directory, 'log%s' % number), settings)
        logs.append(os.path.join(directory, 'log%s' % number))
        pid = start(client.run)
        client.log.close()
        running.add(pid)
        clients.append(pid)
        return pid
    for _ in range(n):
        new_client()
    deadline = time.time() + PATIENCE + 20
    waiting = set(clients)
    numbers = dict((pid, number) for number, pid in enumerate(clients))
    while waiting:
        if time.time() > deadline:
            raise Inconclusive('the clients do not come to an end')
        pause = time.time() + (rng.choice([0.01, 0.05, 0.2])
                               if kills or prop == 'K05' else 0.1)
        while waiting and time.time() < pause:
            for pid in sorted(waiting):
                found, status = os.waitpid(pid, os.WNOHANG)
                if found:
                    running.discard(pid)
                    waiting.discard(pid)
                    require(status == 0, 'a client ended with status %s',
                            status)
            found, status = os.waitpid(server, os.WNOHANG)
            if found:
                running.discard(server)
                raise Violation('the server ended with status %s' % status)
            time.sleep(0.002)
        if prop == 'K05' and waiting and rng.random() < 0.8:
            pid = rng.choice(sorted(waiting))
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            running.discard(pid)
            waiting.discard(pid)
            killed.add(numbers.pop(pid))
            env.count('clients killed')
            if len(logs) < 12:
                pid = new_client()
                numbers[pid] = len(logs) - 1
                waiting.add(pid)
        if kills and waiting and rng.random() < 0.6:
            os.kill(server, signal.SIGKILL)
            os.waitpid(server, 0)
            running.discard(server)
            server = serve()
            env.count('servers killed')
    if kills:
        storage = connected(address, time.time() + PATIENCE)
        connection = Connection(storage)
    else:
        connection.abort()
    final = {}
    for i in range(registers):
        register = get(connection, i)
        final[i] = register.value
    storage.s.sendall(b'Q')
    storage.s.close()
    status = ended(server, time.time() + PATIENCE)
    if status is None:
        raise Inconclusive('the server does not come to an end')
    running.discard(server)
    transactions = {}
    for number, name in enumerate(logs):
        complete = number in killed
        for line in open(name):
            if number in killed and not line.endswith('\n'):
                break
            item = json.loads(line)
            if 'name' in item:
                transactions[item['name']] = item
            complete = complete or 'end' in item
        require(complete, 'the log of a client is incomplete')
    judge(env, prop, registers, list(transactions.values()), final)
    gc.collect()


def updates(env, registers, transactions, final, by_name):
    """
    -> what followed each value of each register, the names of the committed
       transactions, the values that each register ever had
    """
    # The values of each register in order.
    follower = []
    committed = set(x['name'] for x in transactions if x['writes'] and
                    x['outcome'] == 'committed')
    on_chain = []
    for i in range(registers):
        chain = []
        value = final[i]
        while value != 'init':
            require(value not in chain, 'register %s: %s is its own '
                    'predecessor', i, value)
            chain.append(value)
            require(value in by_name and i in by_name[value]['writes'],
                    'register %s has the value %r that nobody wrote', i, value)
            item = by_name[value]
            require(item['outcome'] in ('committed', 'unknown'),
                    'register %s: %s was not committed (%s)', i, value,
                    item['outcome'])
            value = item['writes'][i]
        chain.append('init')
        chain.reverse()
        committed.update(x for x in chain if x != 'init')
        on_chain.append(set(chain))
        follower.append(dict(zip(chain, chain[1:])))
    for name in sorted(committed):
        for i, replaced in by_name[name]['writes'].items():
            if by_name[name]['outcome'] == 'unknown':
                env.count('interrupted commits with effect')
            require(name in on_chain[i], 'transaction %s (%s) has changed '
                    'register %s from %s, but this update is lost: it was '
                    'replaced by %s', name, by_name[name]['outcome'], i,
                    replaced, follower[i].get(replaced))
            env.count('updates found')
    return follower, committed, on_chain


def judge(env, prop, registers, transactions, final):
    by_name = {}
    for item in transactions:
        item['reads'] = dict((int(i), x) for i, x in item['reads'].items())
        item['writes'] = dict((int(i), x) for i, x in item['writes'].items())
        by_name[item['name']] = item
        env.count('transactions ' + item['outcome'])
        if prop in ('K02', 'K07'):
            require('strange' not in item, 'transaction %s: register %s',
                    item['name'], item.get('strange'))
    try:
        follower, committed, on_chain = updates(
            env, registers, transactions, final, by_name)
    except Violation:
        if prop in ('K02', 'K03'):
            # This is not what these are about.
            env.count('histories with lost updates')
            return
        raise
    if prop == 'K05':
        env.count('histories explained')
        return
    # What precedes what?
    edges = {}
    def edge(a, b):
        if a != b:
            edges.setdefault(a, set()).add(b)
    judged = [x for x in transactions if
              x['name'] in committed or (
                  prop != 'K01' and 'went_on' not in x)]
    env.count('transactions that went on after a conflict',
              sum(1 for x in transactions if 'went_on' in x))
    for item in judged:
        name = item['name']
        for i, value in item['reads'].items():
            require(value in on_chain[i], 'transaction %s has read %s in '
                    'register %s, which was never committed', name, value, i)
            if value != 'init':
                edge(value, name)
            after = follower[i].get(value)
            if after is not None:
                edge(name, after)
            env.count('reads judged')
    for i in range(registers):
        for value, after in follower[i].items():
            edge(value, after)
    if prop == 'K03':
        # Nothing that was replaced before the transaction began.
        for item in judged:
            if item['name'] in committed:
                continue
            for i, value in item['reads'].items():
                after = by_name.get(follower[i].get(value))
                require(after is None or 'returned' not in after or
                        after['outcome'] != 'committed' or
                        after['returned'] > item['began'],
                        'transaction %s, that began at %s, has read %s in '
                        'register %s, although %s has replaced it at %s',
                        item['name'], item['began'], value, i,
                        after and after['name'], after and after.get('returned'))
        env.count('histories explained')
        return
    if prop == 'K07':
        moments = []
        for item in judged:
            name = item['name']
            if item['writes'] and item['outcome'] in ('committed', 'unknown'):
                if name not in committed:
                    continue
                begin = item['called']
            else:
                begin = item['began']
            moments.append((begin, 0, name))
            if 'returned' in item:
                moments.append((item['returned'], 1, name))
        moments.sort()
        previous = None
        for n, (when, at_end, name) in enumerate(moments):
            moment = '@%s' % n
            if previous is not None:
                edge(previous, moment)
            if at_end:
                edge(name, moment)
            else:
                edge(moment, name)
            previous = moment
    count = {}
    for a, after in edges.items():
        count.setdefault(a, 0)
        for b in after:
            count[b] = count.get(b, 0) + 1
    ready = [x for x, n in count.items() if n == 0]
    done = 0
    while ready:
        a = ready.pop()
        done += 1
        for b in edges.get(a, ()):
            count[b] -= 1
            if count[b] == 0:
                ready.append(b)
    if done != len(count):
        # Only what lies on a cycle.
        left = set(x for x, n in count.items() if n > 0)
        cycle = find_cycle(left, edges)
        raise Violation('there is no order of the transactions that explains '
                        'what they read: %s' % [
                            by_name.get(x, x) for x in cycle][:12])
    env.count('histories explained')
    env.nontrivial = True


def find_cycle(left, edges):
    # From every node that is left a predecessor is left.
    before = {}
    for a in left:
        for b in edges.get(a, ()):
            if b in left:
                before.setdefault(b, []).append(a)
    x = sorted(left)[0]
    seen = []
    while x not in seen:
        seen.append(x)
        x = min(before[x])
    result = seen[seen.index(x):]
    result.reverse()
    return result


def serializable(rng, env):
    processes(rng, env, 'K01', rng.random() < 0.2)


def snapshots(rng, env):
    processes(rng, env, 'K02', rng.random() < 0.2)


def freshness(rng, env):
    processes(rng, env, 'K03', rng.random() < 0.2)


def packing(rng, env):
    processes(rng, env, 'K07', True)


def killed_clients(rng, env):
    processes(rng, env, 'K05', rng.random() < 0.2)
