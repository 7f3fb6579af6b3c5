"""A StorageServer in a thread of this process, and clients for it."""
import hashlib
import os
import socket
import threading
import time
import traceback

from durus.client_storage import ClientStorage
from durus.storage import MemoryStorage
from durus.storage_server import HostPortAddress, StorageServer
from durus.storage_server import UnixAbstractAddress, UnixDomainSocketAddress

from vlib.case import Violation, Inconclusive
from vlib.storages import open_storage

PATIENCE = 60


class Sockets(object):
    """Keeps a client from waiting for ever."""

    def get_connected_socket(self):
        s = super().get_connected_socket()
        if s is not None:
            s.settimeout(PATIENCE)
        return s


class Unix(Sockets, UnixDomainSocketAddress):
    pass


class Abstract(Sockets, UnixAbstractAddress):
    pass


class Tcp(Sockets, HostPortAddress):
    """On a free port."""

    def __init__(self):
        HostPortAddress.__init__(self, '127.0.0.1', 0)

    def get_listening_socket(self):
        s = HostPortAddress.get_listening_socket(self)
        self.port = s.getsockname()[1]
        return s


def new_address(rng, env, kinds=('unix', 'abstract', 'tcp')):
    kind = rng.choice(kinds)
    if kind == 'tcp':
        return Tcp()
    name = hashlib.sha256(('%s %s %s' % (
        env.fresh('socket'), os.getpid(), time.time())).encode()).hexdigest()
    if kind == 'abstract':
        return Abstract('@vp-%s' % name[:30])
    # The directory may be too long for the name of a socket.
    return Unix(os.path.join(socket_directory(env), name[:12]))


def socket_directory(env):
    if len(env.tmp) < 80:
        return env.tmp
    import shutil
    import tempfile
    path = tempfile.mkdtemp(prefix='vp-')
    env.cleanup(lambda: shutil.rmtree(path, ignore_errors=True))
    return path


class Gate(object):
    """
    Stands for the packer of a storage.  The server calls next() whenever it
    has nothing else to do; a step is taken only when the workload allows it.
    """
    def __init__(self, server, packer):
        self.server = server
        self.packer = packer

    def __iter__(self):
        return self

    def __next__(self):
        server = self.server
        with server.lock:
            if not server.tokens and not server.free_running:
                step = False
            else:
                step = True
                if server.tokens:
                    server.tokens -= 1
        if not step:
            time.sleep(0.0003)
            return None
        try:
            result = next(self.packer)
        except StopIteration:
            server.finished_packs += 1
            server.packing = False
            raise
        except Exception:
            server.failed_packs += 1
            server.packing = False
            raise
        finally:
            server.pack_steps += 1
        return result

    def close(self):
        close = getattr(self.packer, 'close', None)
        if close is not None:
            close()
        self.packer = iter(())


class Server(object):

    def __init__(self, env, kind, path, address, gcbytes=0, wrap=None,
                 gate=True):
        self.env = env
        self.kind = kind
        self.path = path
        self.address = address
        self.gcbytes = gcbytes
        self.wrap = wrap
        self.gate = gate
        self.lock = threading.Lock()
        self.tokens = 0
        self.free_running = False
        self.pack_steps = 0
        self.finished_packs = 0
        self.failed_packs = 0
        self.packs_started = 0
        self.packing = False
        self.death = None
        self.ended = False
        self.memory = None
        self.current = None
        self.ready = threading.Event()
        self.start()

    def start(self):
        self.death = None
        self.ended = False
        self.packing = False
        self.tokens = 0
        self.ready.clear()
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()
        if not self.ready.wait(PATIENCE):
            raise Inconclusive('the server did not start')
        self.check()
        self.env.cleanup(self.kill)

    def open(self):
        if self.kind == 'MemoryStorage':
            if self.memory is None:
                self.memory = MemoryStorage()
            storage = self.memory
        else:
            storage = open_storage(self.kind, self.path)
        if self.wrap is not None:
            storage = self.wrap(storage)
        if self.gate:
            get_packer = storage.get_packer
            def gated():
                packer = get_packer()
                if packer is None:
                    return None
                self.packs_started += 1
                self.packing = True
                self.current = Gate(self, packer)
                return self.current
            storage.get_packer = gated
        return storage

    def run(self):
        try:
            self.storage = self.open()
            address = self.address
            ready = self.ready
            get_listening_socket = address.get_listening_socket
            def announce():
                s = get_listening_socket()
                ready.set()
                return s
            address.get_listening_socket = announce
            server = StorageServer(self.storage, address=address,
                                   gcbytes=self.gcbytes)
            if os.environ.get('VERIF_DEBUG'):
                handle = server.handle
                def traced(s):
                    try:
                        handle(s)
                    except Exception:
                        traceback.print_exc()
                        raise
                server.handle = traced
            try:
                server.serve()
            finally:
                del address.get_listening_socket
        except SystemExit:
            self.ended = True
        except BaseException:
            self.death = traceback.format_exc()
        # The process of the server would end here.
        gate, self.current = self.current, None
        if gate is not None:
            gate.close()
        self.ready.set()

    def check(self):
        if self.death is not None:
            raise Violation('the server died:\n' + self.death)
        if not self.thread.is_alive():
            raise Violation('the server ended')

    def client(self):
        try:
            return ClientStorage(address=self.address)
        except OSError:
            self.check()
            raise

    def raw(self):
        s = self.address.get_connected_socket()
        if s is None:
            self.check()
            raise Violation('cannot connect to the server')
        return s

    def stop(self):
        """End the server as an operator would."""
        self.check()
        s = self.raw()
        s.sendall(b'Q')
        self.thread.join(PATIENCE)
        s.close()
        if self.death is not None:
            self.check()
        if self.thread.is_alive():
            raise Violation('the server does not end when told to')

    def kill(self):
        """At the end of a case, whatever its state."""
        if self.thread.is_alive():
            try:
                s = self.raw()
                s.sendall(b'Q')
                self.thread.join(5)
                s.close()
            except Exception:
                pass

    def restart(self):
        self.stop()
        self.start()

    def step(self, n=1):
        """Let the packer take up to n steps."""
        taken = 0
        for _ in range(n):
            if not self.packing:
                break
            before = self.pack_steps
            with self.lock:
                self.tokens += 1
            end = time.time() + PATIENCE
            while self.pack_steps == before and self.packing:
                if time.time() > end:
                    self.check()
                    raise Violation('the server does not go on packing')
                time.sleep(0.0002)
            taken += 1
        return taken

    def finish_pack(self):
        n = 0
        while self.packing:
            n += 1
            if n > 200000:
                raise Violation('a pack does not come to an end')
            self.step()
        return n
