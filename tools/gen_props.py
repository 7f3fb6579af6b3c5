"""Writes /verif/properties.jsonl.  Run by hand after editing."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

D = 'durus/'
prop('S01', 'A crash at any point leaves exactly the committed transactions',
 'If the process is killed at any moment after a database has been created, reopening the database (with repair, where the storage offers it) yields exactly the objects and values of a state produced by a prefix of the commits: every commit that had returned is there, and the commit in progress is there completely or not at all. The reopened database accepts further commits and survives another reopen. This holds for FileStorage, FileStorage2 and SqliteStorage.',
 ['crash_points', 'histories'], 'every file-system operation, and every byte within a write, at which a run of commits and packs can be cut off',
 'the tests append one garbage byte to a file once; they never stop a commit in the middle or look at what reopening yields',
 [D+'shelf.py', D+'file_storage.py', D+'file_storage2.py', D+'sqlite_storage.py', D+'file.py'],
 [('a transaction is appended with its length, incomplete ones are cut off by repair', D+'shelf.py Shelf.store, read_transaction_offsets'),
  ('terminator after the records of a transaction', D+'file_storage2.py _write_transaction, _build_index'),
  ('one SQL transaction per commit', D+'sqlite_storage.py _store_records')],
 ['file-system calls of a process under an LD_PRELOAD recorder', 'object graph after reopening a reconstructed directory'])
prop('S02', 'A commit that returned survives a power failure',
 'When commit() has returned, its changes are recovered after a power failure in which file data that was not explicitly synchronized to disk is lost. A pack never replaces the database with data that has not been synchronized. This holds for FileStorage, FileStorage2 and SqliteStorage.',
 ['crash_points', 'histories'], 'every moment of a run of commits and packs, with every per-file choice of how much unsynchronized data is lost',
 'no test can lose unsynchronized data, so removing every fsync passes them all',
 [D+'file_storage.py', D+'file_storage2.py', D+'shelf.py', D+'file.py', D+'sqlite_storage.py'],
 [('fsync before a commit returns', D+'file_storage.py end, '+D+'file_storage2.py end'), ('fsync of the packed file before it is renamed', D+'file_storage.py packer, '+D+'file_storage2.py _packer')],
 ['write/fsync/rename events of the recorder, acknowledgements marked by the workload', 'object graph after reopening'])
prop('S03', 'A commit that fails with an I/O error leaves no trace',
 'If writing or synchronizing a commit fails (disk full, I/O error, at any call), commit() raises, and neither this storage nor a later reopen of the database shows any part of that commit; all earlier commits are intact. Once the error condition has passed, aborting and committing again in the same process works, and what it stores is exactly the new commit.',
 ['fault_sequences', 'histories'], 'every write, truncate or sync call that may fail, partially done writes, for a single call or persistently until cleared, in every storage, during commits and packs',
 'no test makes an I/O call fail',
 [D+'file.py', D+'shelf.py', D+'file_storage.py', D+'file_storage2.py', D+'sqlite_storage.py', D+'storage.py'],
 [('revert by truncation, unbuffered writes', D+'shelf.py store, '+D+'file.py write'), ('pending records dropped by begin()', D+'file_storage.py, '+D+'file_storage2.py begin'), ('rollback', D+'sqlite_storage.py _store_records')],
 ['faults injected at the system-call boundary by the LD_PRELOAD recorder', 'object graph in the process and after reopening'])
prop('S04', 'Packing keeps every reachable object and drops the others',
 'However commits are interleaved with the steps of an incremental pack, afterwards every object reachable from the root has exactly its last committed state, in the running process and after a reopen. Objects that were already unreachable when the pack started, and that no commit stored or linked again since, are gone from the storage after the pack. This holds for FileStorage, FileStorage2 and SqliteStorage.',
 ['schedules', 'histories'], 'graphs, and interleavings of commits that create, change, unlink and relink objects with each step of one or more packs',
 'the tests pack small storages, with at most a couple of hand-placed commits during a pack',
 [D+'file_storage.py', D+'file_storage2.py', D+'sqlite_storage.py', D+'shelf.py', D+'storage.py'],
 [('objects committed during a pack are added to it', 'pack_extra in '+D+'file_storage.py, '+D+'file_storage2.py, '+D+'sqlite_storage.py'), ('traversal from the root', 'gen_oid_record, gen_reachable_records')],
 ['storage records and object graph between pack steps, after the pack and after reopening'])
prop('S05', 'A crash during a pack loses nothing',
 'If the process is killed, or power fails, at any point of a pack, opening the database under its own name yields exactly the committed state, including commits made during the pack, and the next pack works.',
 ['crash_points', 'schedules'], 'every file-system operation and byte of a pack with commits made between its steps',
 'the tests never interrupt a pack; a moment without any file under the database name goes unnoticed because opening then silently creates an empty one',
 [D+'file_storage.py', D+'file_storage2.py', D+'file.py', D+'sqlite_storage.py'],
 [('the packed file replaces the original by rename after fsync', D+'file.py rename, preserve')],
 ['file-system calls under the recorder', 'object graph after reopening a reconstructed directory'])
prop('S06', 'Two objects never share an oid',
 'An oid handed out for a new object is never the oid of a stored object nor one that was handed out before and may still be used, whatever sequence of allocations, commits, failed commits, packs and reopens precedes it, and however many clients allocate concurrently. An oid is only used again after the object it belonged to was removed by a pack and sync() has reported the removal.',
 ['histories', 'schedules'], 'sequences of allocation, commit, conflict, pack, reopen and concurrent clients, on every storage',
 'the tests check a handful of allocations on a fresh storage',
 [D+'shelf.py', D+'file_storage.py', D+'file_storage2.py', D+'sqlite_storage.py', D+'client_storage.py', D+'storage_server.py'],
 [('holes of the offset map, then higher numbers', D+'shelf.py next_name, gen_holes'), ('oids that clients may still refer to are skipped', D+'storage_server.py _new_oids'), ('pool of oids per client', D+'client_storage.py new_oid')],
 ['return values of new_oid()', 'contents of the storage'])
prop('S07', 'A partial copy of the file is an earlier state, or is reported',
 'Between packs a FileStorage or FileStorage2 file only grows: bytes that are there are never changed. A copy cut at any length but 0 either opens as exactly the state after some prefix of the commits (when it ends between transactions), or opening it without repair raises an error and leaves the file alone, and opening it with repair yields exactly the state after the last commit that is completely in the copy. A file that ends with something that is no complete transaction is treated in the same way. A copy that does not even contain the initial part of the file is never opened as an empty database.',
 ['crash_points', 'inputs'], 'every length at which the file of any history of commits, packs and reopens can be cut; ends that are incomplete or nonsense',
 'the tests try one or two malformed endings',
 [D+'shelf.py', D+'file_storage2.py', D+'file_storage.py'],
 [('length checks while reading transactions, truncation on repair', D+'shelf.py read_transaction_offsets; '+D+'file_storage2.py _build_index'), ('append only', D+'shelf.py store; '+D+'file_storage2.py _write_transaction')],
 ['bytes of the file after each commit', 'result of opening each cut copy'])
prop('S08', 'Every storage behaves as the same dictionary of records',
 'For every history of begin, store, end, new allocations, abandoned transactions, pack (at once or step by step between transactions) and reopen, load() returns exactly the last record stored for each oid and raises KeyError for an oid that was never stored, and iterating over the storage, in total or from a start oid, yields exactly the current (reachable) records, each once. Every oid whose record a pack removes is reported by the next sync(). FileStorage, FileStorage2, SqliteStorage and MemoryStorage do not differ.',
 ['histories', 'inputs'], 'operation sequences, record sizes including empty and large, reference graphs, reopen and pack at any point',
 'the tests run a few fixed operations per storage, and SqliteStorage has no dedicated tests',
 [D+'file_storage.py', D+'file_storage2.py', D+'sqlite_storage.py', D+'storage.py', D+'shelf.py'],
 [('index of offsets: on-disk map plus memory index', D+'shelf.py'), ('in-memory index rebuilt at open', D+'file_storage2.py'), ('gen_oid_record, bulk_load', D+'storage.py')],
 ['return values of the Storage interface'])
prop('S09', 'One writer at a time, and readonly never writes',
 'While a FileStorage or FileStorage2 is open for writing, at every moment of commits and packs and after them, opening the same database for writing again fails without changing anything, and works once the first one is closed or its process has died. A storage that is opened readonly never changes the file, and refuses to store.',
 ['schedules', 'histories'], 'attempts to open from the same and from other processes at every step of commits and packs',
 'the tests try a second open once, on an idle storage',
 [D+'file.py', D+'file_storage.py', D+'file_storage2.py', D+'shelf.py'],
 [('flock on the open file, kept across rename', D+'file.py obtain_lock, rename')],
 ['result of opening', 'bytes and metadata of the file'])
prop('C01', 'After commit, a new connection sees exactly the committed graph',
 'For every program of object creation, modification, linking, commit, abort and pack on persistent objects and containers, the graph (values, classes, and sharing) seen through a new connection, and after a reopen, equals a plain Python model of the state at the last commit. abort() restores exactly that state in the running connection as well.',
 ['programs', 'histories'], 'random programs over graphs with sharing, cycles, non-persistent containers, and all storages',
 'the tests commit and abort small hand-written graphs',
 [D+'connection.py', D+'persistent.py', D+'serialize.py', D+'persistent_dict.py', D+'persistent_list.py', D+'persistent_set.py', D+'btree.py'],
 [('changed objects and new objects reachable from them are stored', D+'connection.py commit; '+D+'serialize.py ObjectWriter'), ('changed objects become ghosts', D+'connection.py abort')],
 ['object graph through connections, compared by isomorphism with a model'])
prop('C02', 'One object per oid in a connection',
 'As long as the program holds a reference to a persistent object, every way to reach its oid in that connection (attribute access, container access, get by oid, crawling) returns that same object, across commits, aborts, invalidations, cache shrinking and garbage collection; and no two live objects of a connection have the same oid. When a pack has removed an object and its oid is used again, every way to reach the oid yields the new object, with its class and state.',
 ['histories', 'programs'], 'interleavings of loads, dropped references, garbage collection, cache shrinking, conflicts and commits',
 'the tests check identity in a few simple situations',
 [D+'connection.py', D+'serialize.py', D+'persistent.py'],
 [('weak dictionary of objects by oid', D+'connection.py ObjectDictionary, Cache'), ('persistent_load returns the cached object', D+'serialize.py persistent_load')],
 ['identity of returned objects'])
prop('C03', 'Every mutation of a persistent object is stored by the next commit',
 'Any public operation that changes the state of a Persistent instance (attributes, slots), PersistentDict, PersistentList, PersistentSet or BTree, on a loaded object or on one that is not loaded yet, makes the changed state part of the next commit, even if it is the only operation of the transaction, and the change is undone by abort(). Operations that only read never cause a write.',
 ['inputs', 'programs'], 'every public method and operator of the classes, with arguments that change something, on ghosts and on loaded objects',
 'the tests call most methods on objects that are not in a database at all',
 [D+'persistent.py', D+'_persistent.c', D+'persistent_dict.py', D+'persistent_list.py', D+'persistent_set.py', D+'btree.py'],
 [('_p_note_change in each mutating method', 'the container classes'), ('attribute hooks', D+'_persistent.c pb_setattro; '+D+'persistent.py')],
 ['records that reach the storage', 'state seen by a new connection'])
prop('C04', 'The cache size never changes results, and the cache is bounded',
 'Running a program with any cache size yields the same results as with a cache that never needs to shrink: uncommitted changes and new objects are never dropped. If the program keeps no references, then after a few transactions without them the number of objects in the cache returns to its target size.',
 ['programs', 'configurations'], 'cache sizes from 1 up, random programs with held and dropped references',
 'the tests exercise shrinking a few times on a handful of objects',
 [D+'connection.py', D+'persistent.py'],
 [('only saved objects become ghosts, least recently used first', D+'connection.py Cache.shrink')],
 ['values read', 'get_cache_count()'])
prop('C05', 'Stored references, crawling, census and indexes are exact',
 'The references stored with each record are exactly the persistent objects its state refers to (other than itself). Crawling from an object yields exactly the objects reachable from it, each once, for any batch size; the census, the reference index, the listing of instances by class and the listing of referring objects agree with the stored graph.',
 ['inputs', 'configurations'], 'random graphs including cycles, self references, sharing, references inside nested plain containers, all storages and batch sizes',
 'the tests compare a few counts on small graphs',
 [D+'serialize.py', D+'storage.py', D+'connection.py', D+'file_storage.py', D+'sqlite_storage.py'],
 [('references collected while pickling', D+'serialize.py ObjectWriter._persistent_id, get_state'), ('breadth first traversal', D+'storage.py gen_oid_record')],
 ['stored records, results of the query functions, compared with an independent unpickling'])
prop('C06', 'State survives serialization unchanged',
 'The state of every persistent object of any shape (instance dictionaries, slots including private and inherited ones, None, nested and recursive plain containers, bytes, large and incompressible values, shared references) is the same after storing and loading, with compressed and uncompressed records alike. Packing and unpacking records and oid lists are inverses for all inputs.',
 ['inputs'], 'values, class layouts and sizes; both settings of state compression, each read by the other',
 'the tests round-trip a few small values',
 [D+'serialize.py', D+'persistent.py', D+'utils.py'],
 [('one pickler for class and state, memo cleared per object', D+'serialize.py get_state'), ('detection of compressed state', D+'serialize.py ObjectReader.get_state')],
 ['values before and after'])
prop('C07', 'The C extension and the pure Python base classes do not differ',
 'Any program gets the same results, exceptions and stored records, makes the same objects dirty, and registers the same accesses and loads, whether the persistence base classes are the C ones or the Python ones.',
 ['programs'], 'random programs over attribute access (ordinary, special, _p_ and exotic names), status changes, slots, subclasses with hooks, pickling, copying, transactions',
 'the tests run with whichever implementation is installed and never compare them',
 [D+'_persistent.c', D+'persistent.py'],
 [('two implementations of PersistentBase and ConnectionBase', D+'_persistent.c; '+D+'persistent.py')],
 ['event traces (results, exceptions, load_state/note_access/note_change calls, records) of two processes'])
prop('C08', 'The C extension has no memory errors and no reference leaks',
 'Under any use of persistent objects from Python, the C extension performs no out-of-bounds, use-after-free, NULL or otherwise undefined access, does not crash the interpreter, keeps reference counts balanced, so that objects are freed when unreferenced or collected in cycles, and never hides an exception.',
 ['programs', 'inputs'], 'random programs including failing loads, exceptions in hooks, deletions, weird attribute names, garbage collection at any point, deep chains',
 'the tests run without sanitizers and do not count references',
 [D+'_persistent.c'],
 [('reference counting, traverse/clear, error checks', D+'_persistent.c')],
 ['AddressSanitizer/UBSan reports', 'reference counts and liveness through weak references', 'exit status'])
prop('C09', 'A commit that fails can be recovered from without losing objects',
 'After a commit() that raised for any reason (value that can\'t be pickled, reference to an object of another connection, conflict, storage error), abort() returns the connection to the last committed state; objects that would have been stored for the first time are again new and can be linked and committed later; nothing of the failed commit is ever stored by a later one, and no committed object ever refers to an object that is not stored.',
 ['fault_sequences', 'histories'], 'failures at any object of a commit, any kind of exception, followed by arbitrary further programs, on every storage including ClientStorage',
 'the tests check a conflict, and an unpicklable value without continuing afterwards',
 [D+'connection.py', D+'serialize.py', D+'file_storage.py', D+'file_storage2.py', D+'client_storage.py'],
 [('oids of new objects are taken back', D+'connection.py commit')],
 ['object graph through the same and new connections', 'all stored references'])
prop('C10', 'Computed attributes are never stale after a transaction boundary',
 'A value returned by a ComputedAttribute was computed after the last invalidation that this connection committed or has been told of at a transaction boundary: after another connection commits an invalidation, commit() or abort() makes the next get() compute again; until then the value is kept without writing to the storage.',
 ['schedules', 'histories'], 'sequences of get, invalidate, commit, abort in several connections, with cache shrinking',
 'the tests cover one or two orders of events',
 [D+'persistent.py', D+'connection.py'],
 [('invalidate marks the object as changed, becoming a ghost forgets the value', D+'persistent.py ComputedAttribute')],
 ['calls of the compute function', 'returned values'])
prop('K01', 'Committed transactions of all clients are serializable',
 'For every interleaving of the clients of a storage server, every transaction that commits changes has read only the versions that were current when it committed, so that the result is the same as running the committed transactions one after another in commit order, and no update is lost.',
 ['schedules', 'histories'], 'interleavings of reads, writes, aborts, commits, retries and packs of several clients',
 'the tests use two clients with a few fixed steps',
 [D+'storage_server.py', D+'client_storage.py', D+'connection.py'],
 [('invalidations are delivered before a commit is accepted, and conflict with objects accessed', D+'storage_server.py handle_C; '+D+'connection.py _handle_invalidations')],
 ['history of versions read and written by each transaction at the client boundary'])
prop('K02', 'A transaction only ever sees one consistent snapshot',
 'All values that a client reads within one transaction belong to one single state of the database, as of some point in the order of commits, or the read raises a ReadConflictError (after which only an abort helps); this includes transactions that only read, those that are going to be aborted, and crawling over all objects.',
 ['schedules', 'histories'], 'interleavings of lazy loads, cached reads and bulk loads with commits of other clients and packs',
 'the tests check one read conflict',
 [D+'storage_server.py', D+'client_storage.py', D+'connection.py'],
 [('loads of invalidated objects are refused until the client has synchronized', D+'storage_server.py _send_load_response; '+D+'connection.py get_stored_pickle')],
 ['history of versions read per transaction, checked against the order of commits'])
prop('K03', 'After commit or abort a client sees everything committed before',
 'Once commit() or abort() has returned, what a client reads in its next transaction includes every commit that was acknowledged to any client before that call.',
 ['schedules', 'histories'], 'interleavings of commits of several clients with the transaction boundaries of readers whose caches hold older versions, clients that connect at any time, and packs',
 'the tests check one or two propagations',
 [D+'storage_server.py', D+'client_storage.py', D+'connection.py'],
 [('sets of invalid oids per client', D+'storage_server.py'), ('cached objects become ghosts', D+'connection.py _sync, _handle_invalidations')],
 ['versions read after each transaction boundary'])
prop('K04', 'Conflicts are raised only when needed, and abort recovers',
 'A client gets a conflict error only if an object that it accessed in this transaction was changed or removed by another client since its last transaction boundary, or if the object that it is loading was removed (or, while crawling, changed). After abort(), if no other client interferes, the same work succeeds; until then, no transaction that has read an outdated object can commit changes.',
 ['schedules', 'histories'], 'interleavings of clients with overlapping and with disjoint sets of objects',
 'the tests check that conflicts appear, hardly that they don\'t',
 [D+'connection.py', D+'storage_server.py', D+'client_storage.py'],
 [('serial number of the last access per object', D+'connection.py note_access, _handle_invalidations')],
 ['exceptions raised at the client, compared with the accesses recorded'])
prop('K05', 'A client that fails harms neither the data nor other clients',
 'If a client disappears, stalls or sends something malformed, at any byte of its dialog with the server, the server goes on serving the others correctly: the interrupted commit has taken effect completely or not at all, in which case the other clients learn about it, oids and records of others are unaffected, and new clients can connect.',
 ['fault_sequences', 'schedules'], 'every byte at which any request or response can be cut, malformed requests, combined with what the other clients do',
 'the tests always end clients politely',
 [D+'storage_server.py', D+'client_storage.py'],
 [('errors of a request close only that client', D+'storage_server.py serve'), ('records of a commit are complete before they are stored', D+'storage_server.py handle_C')],
 ['answers to other clients', 'stored state'])
prop('K06', 'A remote storage behaves as the storage behind it',
 'Through any sequence of requests, including ones that fail, a ClientStorage returns what the storage of the server would return (records, missing oids as DurusKeyError, lists of invalid oids), every response belongs to its request, and records of any size and any byte content arrive unchanged, however the transport splits them.',
 ['histories', 'inputs'], 'sequences of load, bulk load with missing and invalidated oids, allocation, commit, sync, pack, iteration; record sizes; fragmentation of the stream',
 'the tests issue a few requests, mostly successful ones',
 [D+'client_storage.py', D+'storage_server.py', D+'utils.py'],
 [('fixed request and response framing', D+'client_storage.py; '+D+'storage_server.py'), ('loops over partial sends and receives', D+'utils.py read, write')],
 ['return values at the Storage interface of the client and of the server'])
prop('K07', 'Packing in the server is invisible to its clients',
 'While the server packs, on request or automatically, clients read, commit and allocate oids as at any other time; they never see an object as missing that is reachable in their state of the database, automatic packing starts when the configured amount has been committed and is eventually repeated, and the space of unreachable objects is reclaimed.',
 ['schedules', 'configurations'], 'interleavings of client transactions with the steps of a pack in the server, thresholds, storages',
 'the tests call pack on an idle server',
 [D+'storage_server.py', D+'file_storage.py', D+'file_storage2.py', D+'sqlite_storage.py'],
 [('the packer runs step by step when there are no requests', D+'storage_server.py serve'), ('removed oids are invalidated before they can be used again', D+'storage_server.py _new_oids, _sync_storage')],
 ['values read and errors at the clients', 'records in the storage'])
prop('B01', 'A BTree is a sorted mapping, and stays a balanced tree',
 'For every sequence of operations, with every node degree, a BTree gives the results of a sorted dictionary: lookups, length and truth value, iteration in both directions, ranges with every combination of bounds, minimum and maximum, update, deletion and failing deletion. Its nodes keep the B-tree invariants: order, occupancy, equal depth and item counts. This includes trees stored before counts existed, and trees loaded from a database at any point.',
 ['inputs', 'histories'], 'operation sequences, key types, all node classes, with and without persistence in between',
 'the tests use random insertions and deletions of few shapes, and compare little more than the items',
 [D+'btree.py'],
 [('split and merge as in CLRS', D+'btree.py insert_item, split_child, delete'), ('incremental counts', D+'btree.py _count')],
 ['results compared with a model', 'structure of the nodes'])
prop('B02', 'Persistent containers behave like the built-in ones',
 'For every sequence of operations, PersistentDict, PersistentList and PersistentSet have the results, the exceptions and the contents that dict, list and set have (in the operations that they share), including operators with persistent and plain operands on either side, and arguments that alias the container itself.',
 ['inputs', 'programs'], 'operation sequences with arguments of every kind',
 'the tests call each method once or twice',
 [D+'persistent_dict.py', D+'persistent_list.py', D+'persistent_set.py'],
 [('delegation to a built-in container', 'the data attribute of the classes')],
 ['results, exceptions and contents compared with the built-in type'])
prop('U01', 'Packed arrays and integer sets are exact',
 'ByteArray, BitArray, WordArray, IntArray and IntSet, in memory or in a file at any offset, hold exactly what was put in for every index, value and word size, also after growing and after being opened again from the same file, and refuse indexes and values that do not fit without changing anything. Holes of an offset map are exactly the unused positions, each once.',
 ['inputs', 'histories'], 'sizes, offsets, word sizes, values at their limits, growth and reopening',
 'the tests use a few sizes and values',
 [D+'utils.py', D+'shelf.py'],
 [('ByteArray and the classes on top of it', D+'utils.py'), ('linked list of holes', D+'shelf.py OffsetMap.gen_stitch, gen_holes')],
 ['contents compared with Python lists and sets', 'bytes around the array in the file'])
prop('T01', 'Tools and conversions preserve the object graph',
 'Renumbering a database, loading records of one storage into another, touching every reference to a renamed class, packing with the command line tool, and converting a database of Python 2 (strings become text) all yield a graph that is isomorphic to the original one, including cycles through the root and shared objects. The storage class for an existing file is recognized from its content, and a file that is no database is refused and left alone.',
 ['inputs', 'programs'], 'random object graphs and histories; all pairs of storages',
 'the tools have no tests',
 ['bin/db_renumber.py', 'bin/db_to_py3k.py', D+'__main__.py', D+'connection.py', D+'file_storage2.py', D+'sqlite_storage.py'],
 [('one pickle of everything but the root', 'bin/db_renumber.py'), ('get_storage_class', D+'__main__.py'), ('create_from_records', D+'file_storage2.py, '+D+'sqlite_storage.py')],
 ['object graph of the result compared by isomorphism'])
prop('K08', 'Servers live where and as long as they should',
 'A server is reachable at the address that it was given (host and port, path of a socket, abstract name, socket inherited from systemd) from the time when wait_for_server() returns until it is told to stop or is killed, and then the address and the database are free. Starting another server on an address or a database in use fails without any effect on the first one, its socket file or the database; after a server was killed at any moment, or while one is still ending, another one can be started at the address and stays reachable. Nothing but a stale socket is ever replaced; the socket has the owner and the permissions asked for, and the umask of the process stays what it was. A readonly server refuses commits and leaves its file as it is.',
 ['histories', 'schedules', 'crash points'], 'sequences of starts, uses, stops and kills of servers; timing of a restart',
 'the tests start one server at a time at a free address',
 [D+'storage_server.py', D+'__main__.py', D+'systemd_socket.py', D+'client_storage.py'],
 [('stale sockets are detected by connecting', D+'storage_server.py UnixDomainSocketAddress'), ('the order of unlink and close', D+'storage_server.py'), ('command line', D+'__main__.py run_durus_main, stop_durus')],
 ['connections to the address, exit codes of processes, inode, owner and mode of the socket file, contents of the databases'])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
