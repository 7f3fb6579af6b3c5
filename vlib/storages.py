"""Opening databases of each kind."""
from durus.file_storage import FileStorage
from durus.file_storage2 import FileStorage2
from durus.sqlite_storage import SqliteStorage
from durus.storage import MemoryStorage

FILE_KINDS = ['FileStorage', 'FileStorage2', 'SqliteStorage']
CLASSES = dict(FileStorage=FileStorage, FileStorage2=FileStorage2,
               SqliteStorage=SqliteStorage)


def open_storage(kind, path, **kwargs):
    return CLASSES[kind](path, **kwargs)


class Shared(object):
    """
    Records shared by several views: an implementation of the Storage interface
    with the meaning that ClientStorage and StorageServer give to it, in one
    process.  It keeps every version, so that a monitor can tell what was
    current when.
    """
    def __init__(self):
        self.records = {}
        self.next_oid = 0
        self.views = []
        self.versions = 0 # number of commits
        self.log = [] # per commit: set of oids

    def view(self):
        return View(self)


from durus.error import ReadConflictError
from durus.storage import Storage
from durus.utils import int8_to_str


class View(Storage):

    def __init__(self, shared):
        self.shared = shared
        self.invalid = set()
        self.pending = {}
        self.stores = 0
        self.loads = 0
        shared.views.append(self)

    def load(self, oid):
        self.loads += 1
        if oid in self.invalid:
            raise ReadConflictError([oid])
        return self.shared.records[oid]

    def begin(self):
        self.pending = {}

    def store(self, oid, record):
        self.pending[oid] = record

    def end(self, handle_invalidations=None):
        if self.invalid:
            oids = list(self.invalid)
            self.invalid.clear()
            handle_invalidations(oids)
        self.stores += len(self.pending)
        self.shared.records.update(self.pending)
        self.shared.log.append(set(self.pending))
        for view in self.shared.views:
            if view is not self:
                view.invalid.update(self.pending)
        self.pending = {}

    def sync(self):
        result = list(self.invalid)
        self.invalid.clear()
        return result

    def new_oid(self):
        oid = int8_to_str(self.shared.next_oid)
        self.shared.next_oid += 1
        return oid

    def close(self):
        if self in self.shared.views:
            self.shared.views.remove(self)
