"""
The recorded file operations of a process, and the states of the disk that a
crash at any point can leave behind.

Process crash: every completed call has had its effect; the call in progress
has written any leading part of its data.

Power failure: the content of a file is what it was when it was last
synchronized, followed by the effects of the first n operations on it since
then, for any n; the last of them perhaps in part.  Creating, renaming and
removing files happens in order, and becomes durable with the next
synchronization of any file or directory (as in journaling file systems); before that, any
leading part of these operations may have become durable.
"""
import ctypes
import os
import struct

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['VERIF_RECORDER'])
        _lib.vp_fired.restype = ctypes.c_long
        _lib.vp_calls.restype = ctypes.c_long
    return _lib


class Recording(object):

    def __init__(self, directory, log):
        self.directory = os.path.realpath(directory)
        self.log = log
        self.snapshot = {}
        for name in os.listdir(self.directory):
            path = os.path.join(self.directory, name)
            with open(path, 'rb') as f:
                self.snapshot[path] = os.fstat(f.fileno()).st_ino, f.read()
        fd = lib().vp_start(os.fsencode(self.directory), os.fsencode(log))
        assert fd >= 0
        self.running = True

    def mark(self, text):
        lib().vp_mark(text.encode())

    def stop(self):
        if self.running:
            self.running = False
            lib().vp_stop()

    def events(self):
        self.stop()
        with open(self.log, 'rb') as f:
            data = f.read()
        os.unlink(self.log)
        result = []
        position = 0
        while position < len(data):
            kind = data[position:position + 1].decode()
            n, = struct.unpack_from('<I', data, position + 1)
            payload = data[position + 5:position + 5 + n]
            assert len(payload) == n
            position += 5 + n
            if kind == 'W':
                ino, offset = struct.unpack_from('<Qq', payload)
                result.append(('W', ino, offset, payload[16:]))
            elif kind == 'T':
                result.append(('T',) + struct.unpack('<Qq', payload))
            elif kind == 'F':
                result.append(('F',) + struct.unpack('<Q', payload))
            elif kind == 'C':
                result.append(('C', struct.unpack_from('<Q', payload)[0],
                               os.fsdecode(payload[8:])))
            elif kind in 'RL':
                k, = struct.unpack_from('<I', payload)
                result.append((kind, os.fsdecode(payload[4:4 + k]),
                               os.fsdecode(payload[4 + k:])))
            elif kind == 'X':
                result.append((kind, os.fsdecode(payload)))
            else:
                result.append((kind, payload.decode()
                               if kind != 'U' else os.fsdecode(payload)))
        return result


class File(object):

    def __init__(self, data=b''):
        self.data = bytearray(data)
        self.synced = bytes(data)
        self.unsynced = []

    def sync(self):
        if self.unsynced:
            self.synced = bytes(self.data)
            self.unsynced = []


def apply(data, op):
    if op[0] == 'T':
        n = op[2]
        if n <= len(data):
            del data[n:]
        else:
            data.extend(bytes(n - len(data)))
    else:
        _, _, offset, hunk = op
        if offset > len(data):
            data.extend(bytes(offset - len(data)))
        data[offset:offset + len(hunk)] = hunk


class Disk(object):

    def __init__(self, snapshot):
        self.inodes = {}
        self.names = {}
        for name, (ino, data) in snapshot.items():
            self.names[name] = ino
            self.inodes[ino] = File(data)
        self.names_history = [dict(self.names)]

    def do(self, event):
        kind = event[0]
        if kind in 'WT':
            file = self.inodes[event[1]]
            apply(file.data, event)
            file.unsynced.append(event)
        elif kind == 'F':
            self.inodes[event[1]].sync()
            self.names_history = [dict(self.names)]
        elif kind == 'D':
            self.names_history = [dict(self.names)]
        elif kind == 'A':
            for file in self.inodes.values():
                file.sync()
            self.names_history = [dict(self.names)]
        elif kind in 'CRUL':
            if kind == 'C':
                self.inodes[event[1]] = File()
                self.names[event[2]] = event[1]
            elif kind == 'R':
                self.names[event[2]] = self.names.pop(event[1])
            elif kind == 'L':
                self.names[event[2]] = self.names[event[1]]
            else:
                del self.names[event[1]]
            self.names_history.append(dict(self.names))

    def crash(self):
        return dict((name, bytes(self.inodes[ino].data))
                    for name, ino in self.names.items())

    def torn(self, event, n):
        """The state when only n bytes of this write have been written."""
        result = self.crash()
        data = bytearray(self.inodes[event[1]].data)
        apply(data, event[:3] + (event[3][:n],))
        for name, ino in self.names.items():
            if ino == event[1]:
                result[name] = bytes(data)
        return result

    def power_failure(self, rng, how):
        """how: none, all, mixed"""
        history = self.names_history
        if how == 'none':
            names = rng.choice([history[0], history[-1]])
        elif how == 'all':
            names = history[-1]
        else:
            names = rng.choice(history)
        contents = {}
        result = {}
        for name, ino in names.items():
            if ino not in contents:
                file = self.inodes[ino]
                if how == 'all':
                    contents[ino] = bytes(file.data)
                elif how == 'none' or not file.unsynced:
                    contents[ino] = file.synced
                else:
                    n = rng.randrange(len(file.unsynced) + 1)
                    data = bytearray(file.synced)
                    for op in file.unsynced[:n]:
                        apply(data, op)
                    if n < len(file.unsynced):
                        op = file.unsynced[n]
                        if op[0] == 'W' and rng.random() < 0.7:
                            apply(data, op[:3] + (
                                op[3][:rng.randrange(len(op[3]))],))
                    contents[ino] = bytes(data)
            result[name] = contents[ino]
        return result


def put(files, directory, target):
    """Write the files that were in directory to target."""
    os.makedirs(target, exist_ok=True)
    for name in os.listdir(target):
        os.unlink(os.path.join(target, name))
    for name, data in files.items():
        assert os.path.dirname(name) == directory, name
        with open(os.path.join(target, os.path.basename(name)), 'wb') as f:
            f.write(data)
