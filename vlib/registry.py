"""The checks: for each property the groups of cases that decide it."""
from vlib.core import Group


class Info(object):

    def __init__(self, groups, rule, technique, level_note,
                 level='exploration', assumptions=()):
        self.groups = groups
        self.rule = rule
        self.technique = technique
        self.level = level
        self.level_note = level_note
        self.assumptions = list(assumptions)


REGISTRY = {}

REGISTRY['C01'] = Info(
    [Group('programs', 'conn', 'commit_abort', 5000, 12000, ext='both',
           wall=(40, 700), must=['graphs compared', 'packs', 'reopens'],
           note='random programs on all container kinds, carried out on a '
                'model at the same time')],
    rule='A case is a random program of mutations, commits, aborts, packs and '
         'reopens on a random storage with a random cache size; non-trivial '
         'if it stored at least three objects; distinct by the sequence of '
         'steps.',
    technique='runtime monitoring: reference model of the object graph, '
              'compared by isomorphism',
    level_note='Held on the programs that were run. The model is independent '
               'of durus: object states and links only.')

REGISTRY['B01'] = Info(
    [Group('operations', 'containers', 'btree', 4000, 25000, ext='both',
           wall=(60, 700),
           must=['tree structures checked', 'failing deletions', 'deletions',
                 'trees without counts', 'trees of depth 3'],
           note='all operations, degrees 2 to 16, random commits, aborts and '
                'reloads'),
     Group('big', 'containers', 'big_btree', 40, 300, wall=(40, 500),
           note='thousands of keys, degrees up to 512')],
    rule='A case is a random sequence of BTree operations with random bounds; '
         'non-trivial if the tree had at least two levels; distinct by the '
         'sequence of operations.',
    technique='runtime monitoring: sorted dictionary as reference, invariants '
              'of the node structure checked after the operations',
    level_note='Held on the sequences that were run, for keys that are totally '
               'ordered.')

REGISTRY['B02'] = Info(
    [Group('operations', 'containers', 'containers', 20000, 100000, ext='both',
           wall=(40, 600),
           must=['operations on a pdict', 'operations on a plist',
                 'operations on a pset', 'operations that raise'],
           note='each operation on a persistent container and on the built-in '
                'one')],
    rule='A case is a random sequence of operations on one container, with '
         'plain, persistent and aliasing operands; distinct by the sequence.',
    technique='runtime monitoring: differential execution against dict, list '
              'and set',
    level_note='Held on the sequences that were run, for the operations that '
               'the types share (not: comparing a PersistentSet or '
               'PersistentDict with a plain one, which durus defines '
               'differently).')

REGISTRY['U01'] = Info(
    [Group('bytes', 'containers', 'byte_array', 2000, 10000, ext='py',
           wall=(30, 200), must=['refusals']),
     Group('bits', 'containers', 'bit_array', 2000, 10000, ext='py',
           wall=(30, 200)),
     Group('integers', 'containers', 'int_array', 2000, 10000, ext='py',
           wall=(30, 200)),
     Group('sets', 'containers', 'int_set', 2000, 10000, ext='py',
           wall=(30, 200)),
     Group('holes', 'containers', 'holes', 1500, 8000, ext='py',
           wall=(30, 200), must=['holes'])],
    rule='A case is an array or set of random dimensions in a random medium '
         'with random operations, including refused ones; distinct by the '
         'sequence of operations.',
    technique='runtime monitoring: Python lists and sets as reference, bytes '
              'around the array',
    level_note='Held on the sequences that were run.')

REGISTRY['C02'] = Info(
    [Group('programs', 'conn', 'identity', 350, 8000, ext='both',
           wall=(45, 500), must=['identities checked', 'live objects checked']),
     Group('interference', 'conn', 'identity_with_others', 400, 8000,
           ext='both', wall=(40, 400), must=['conflicts'],
           note='another connection changes objects and links'),
     Group('entrances', 'conn', 'entrances', 3000, 20000, ext='both',
           wall=(40, 400), must=['crawlers'],
           note='objects reached by oid, reference, crawling and listing'),
     Group('reused', 'conn', 'reused_oids', 200, 4000, ext='both',
           wall=(40, 400), must=['oids used again', 'views checked'],
           note='oids of removed objects get a new meaning')],
    rule='A case is a random program on a connection during which some objects '
         'are held; non-trivial if several objects were stored; distinct by '
         'the steps.',
    technique='runtime monitoring: identity of every object reached, against '
              'the held ones and all live objects of the process',
    level_note='Held on the programs that were run.')

REGISTRY['C04'] = Info(
    [Group('programs', 'conn', 'cache_programs', 2500, 12000, ext='both',
           wall=(45, 500), must=['shrinking amid changes']),
     Group('bound', 'conn', 'cache_bound', 800, 3000, ext='both',
           wall=(45, 400), must=['cache bounds checked'])],
    rule='A case is a random program with a cache of 1 to 3 objects compared '
         'with a model that forgets nothing, or a graph of a random shape that '
         'is traversed with a cache of random size; distinct by the steps.',
    technique='runtime monitoring: reference model; number of cached objects '
              'after a bounded number of transactions',
    level_note='Held on the programs that were run; "a few transactions" is '
               'read as at most 40 commits or aborts without references.')

REGISTRY['C09'] = Info(
    [Group('failures', 'conn', 'failed_commit', 3000, 12000, ext='both',
           wall=(60, 600),
           must=['failed commits', 'objects linked after a failed commit',
                 'failed commits by storage', 'failed commits by value',
                 'failed commits by other connection',
                 'failed commits by poison']),
     Group('conflicts', 'conn', 'conflict_commit', 2500, 8000, ext='both',
           wall=(40, 300), must=['conflicts'])],
    rule='A case is a random program with commits that fail: a value that '
         'can not be pickled, an object of another connection, a storage error '
         'at a random call, a conflict; distinct by the steps.',
    technique='runtime monitoring with fault injection: model of the committed '
              'state, scan of all stored references',
    level_note='Held on the programs and failures that were run.')

REGISTRY['C10'] = Info(
    [Group('histories', 'conn', 'computed', 12000, 30000, ext='both',
           wall=(40, 500),
           must=['invalidations committed', 'kept values', 'computations'])],
    rule='A case is a random history of get(), invalidate(), commit and abort '
         'of two or three connections; distinct by the steps.',
    technique='runtime monitoring: every returned value is dated against the '
              'committed invalidations and the transaction boundaries',
    level_note='Held on the histories that were run, with connections to a '
               'shared storage that gives the guarantees of ClientStorage.')

REGISTRY['C03'] = Info(
    [Group('operations', 'tracking', 'single', 40000, 200000, ext='both',
           wall=(60, 500),
           must=['changes stored', 'reads without a write', 'aborted'] +
                ['operations on a %s that is not loaded' % kind for kind in
                 ('node', 'slot', 'btree', 'pdict', 'plist', 'pset')],
           note='one to three operations per transaction'),
     Group('links', 'tracking', 'links', 3000, 10000, ext='both',
           wall=(30, 300), must=['links compared'])],
    rule='A case is a random sequence of transactions on one object, each of '
         'one to three operations, on an object that is loaded or not; '
         'distinct by the sequence.',
    technique='runtime monitoring: records that reach the storage, and the '
              'state seen by a new connection, after each operation',
    level_note='Held on the sequences that were run. Changes inside plain '
               'values and through __dict__ are not operations of durus.')

REGISTRY['C05'] = Info(
    [Group('programs', 'refs', 'programs', 2000, 6000, ext='both',
           wall=(45, 400),
           must=['crawls compared', 'instances listed',
                 'lists of referring objects compared']),
     Group('shapes', 'refs', 'shapes', 600, 3000, wall=(45, 300))],
    rule='A case is a random program or graph on a random storage after which '
         'all listings are compared; non-trivial if more than three objects '
         'are stored; distinct by the steps.',
    technique='runtime monitoring: independent parser of the stored records '
              'and closure of its links as oracle',
    level_note='Held on the graphs that were run. The independent parser uses '
               'the standard pickle module.')

CRASH_ASSUMPTIONS = [
    'The recorder sees all calls that change files; a write in progress has '
    'written some leading part of its data.',
    'Crashes during the creation of a database are not explored: the log '
    'starts when the first commit, of the root object, has returned.']
POWER_ASSUMPTIONS = CRASH_ASSUMPTIONS + [
    'After a power failure a file has the content of its last '
    'synchronization and the effects of some first operations since then.',
    'Creating, linking, renaming and removing files take effect in order, at '
    'the latest with the next synchronization of any file or directory, as in '
    'journaling '
    'file systems.']

REGISTRY['S01'] = Info(
    [Group('crashes', 'crash', 'process_crash', 600, 8000,
           preload='recorder', wall=(90, 700),
           must=['crashes during a commit', 'torn writes',
                 'state of the commit in progress',
                 'databases that went on', 'crashes during a recovery']),
     Group('large commits', 'crash', 'crowd_crash', 60, 1000,
           preload='recorder', wall=(60, 300),
           must=['crashes during a commit', 'changes of crowds'])],
    rule='A case is a random program on a database of a random kind whose file '
         'operations are recorded; it is killed before, after and inside each '
         'of them and opened again; distinct by the program.',
    technique='runtime monitoring: recorded file operations, every crash state '
              'opened by the real code, digest of the graph as oracle',
    level_note='All crash points of the programs that were run, with sampled '
               'lengths of torn writes.',
    assumptions=CRASH_ASSUMPTIONS)

REGISTRY['S02'] = Info(
    [Group('power failures', 'crash', 'power_failure', 400, 6000,
           preload='recorder', wall=(90, 500),
           must=['power failures with everything acknowledged',
                 'databases that went on']),
     Group('during packs', 'crash', 'pack_power', 80, 2000,
           preload='recorder', wall=(90, 300),
           must=['power failures during a pack'])],
    rule='A case is a random program on a database of a random kind whose file '
         'operations are recorded; the power fails before and after each of '
         'them; distinct by the program.',
    technique='runtime monitoring: recorded file operations, simulated loss of '
              'unsynchronized data, opened by the real code',
    level_note='All points in time of the programs that were run, with sampled '
               'subsets of the unsynchronized data.',
    assumptions=POWER_ASSUMPTIONS)

REGISTRY['S05'] = Info(
    [Group('crashes', 'crash', 'pack_crash', 150, 3000,
           preload='recorder', wall=(90, 600),
           must=['crashes during a pack', 'packs of recovered databases']),
     Group('power failures', 'crash', 'pack_power', 120, 3000,
           preload='recorder', wall=(90, 400),
           must=['power failures during a pack'])],
    rule='A case is a random program with incremental packs and commits '
         'between their steps; killed at each file operation; distinct by the '
         'program.',
    technique='runtime monitoring: recorded file operations, every crash state '
              'opened and packed again by the real code',
    level_note='All crash points of the programs that were run.',
    assumptions=POWER_ASSUMPTIONS)

REGISTRY['S03'] = Info(
    [Group('commits', 'crash', 'io_errors', 6000, 60000,
           preload='recorder', wall=(60, 600),
           must=['commits that failed on ' + kind for kind in
                 ('FileStorage', 'FileStorage2', 'SqliteStorage')] +
                ['commits after the failure', 'commits with short writes']),
     Group('packs', 'crash', 'pack_errors', 1500, 20000,
           preload='recorder', wall=(60, 300), must=['packs that failed'])],
    rule='A case is a random program during which writing or synchronizing '
         'fails at random calls, once or from then on, after a part of the '
         'data; distinct by the steps.',
    technique='runtime monitoring with fault injection at the system call '
              'boundary; model of the committed state',
    level_note='Held on the faults that were injected (write and fsync).',
    assumptions=['Truncating a file works even if writing fails.'])

REGISTRY['S07'] = Info(
    [Group('cuts', 'files', 'cut_copies', 1200, 12000, wall=(90, 700),
           must=['copies that end with a commit', 'copies that are reported',
                 'copies without the initial part', 'copies that went on',
                 'copies that were repaired', 'files cut at every length',
                 'packed files', 'new files', 'malformed ends'])],
    rule='A case is a random program that writes a FileStorage or '
         'FileStorage2; its file is then cut at many or all lengths; distinct '
         'by the program.',
    technique='runtime monitoring: the bytes of the file after each step, and '
              'what the real code does with cut copies, against the recorded '
              'states',
    level_note='Small files are cut at every length, others at the boundaries '
               'and at random.',
    assumptions=['An empty file is a new database.'])

REGISTRY['S09'] = Info(
    [Group('locks', 'files', 'locks', 4000, 40000, wall=(90, 500),
           must=['refused ' + x for x in [
               'right after opening it', 'after a commit', 'during a pack',
               'after a commit during a pack', 'after a pack',
               'after a reopen', 'with a reader',
               'while another process has it open', 'after a failed commit',
               'by a readonly storage']] +
               ['attempts in another process', 'writers that died',
                'attempts at calls during a pack',
                'opened after the writer closed it']),
     Group('readonly', 'files', 'readonly_files', 1000, 10000, wall=(60, 200),
           must=['opened readonly', 'not opened readonly'])],
    rule='A case is a random program on a FileStorage or FileStorage2, with '
         'attempts to open the file for writing (in the same and in other '
         'processes) and readonly between the steps; distinct by the steps.',
    technique='runtime monitoring: outcome of opening, snapshots of the '
              'directory before and after',
    level_note='Held at the moments that were probed.')

REGISTRY['S04'] = Info(
    [Group('packs', 'stores', 'packing', 2500, 25000, wall=(90, 700),
           must=['packs with commits between the steps of ' + kind
                 for kind in ('FileStorage', 'FileStorage2', 'SqliteStorage')] +
                ['packs that removed objects', 'abandoned packs',
                 'objects linked again during a pack'])],
    rule='A case is a random program with incremental packs and commits '
         'between their steps; distinct by the steps.',
    technique='runtime monitoring: model of the graph, independent scan of '
              'the records before, during and after packs',
    level_note='Held on the histories that were run.',
    assumptions=['An object that the pack has removed is not linked again '
                 'afterwards by a program that still holds it.'])

REGISTRY['S06'] = Info(
    [Group('oids', 'stores', 'oids', 25000, 200000, wall=(60, 400),
           must=['oids that were used again after a pack', 'commits that failed',
                 'abandoned commits', 'reopened', 'packs']),
     Group('objects', 'stores', 'connections', 3000, 20000, wall=(60, 300)),
     Group('clients', 'allocation', 'clients', 450, 12000, ext='c',
           wall=(30, 300),
           must=['oids of removed objects used again', 'commits given up',
                 'restarts', 'packs', 'records compared'])],
    rule='A case is a random history of allocations, commits, abandoned '
         'commits, packs and reopens on a storage, through a connection, or '
         'through the clients of a server; distinct by the steps.',
    technique='runtime monitoring: online check of the allocated oids against '
              'those that are stored or handed out',
    level_note='Held on the histories that were run.')

REGISTRY['S08'] = Info(
    [Group('records', 'stores', 'dictionary', 25000, 200000, wall=(60, 500),
           must=['histories on ' + kind for kind in (
               'FileStorage', 'FileStorage2', 'SqliteStorage',
               'MemoryStorage')] +
               ['abandoned transactions', 'records removed by packs',
                'iterations', 'iterations from an oid', 'reopened',
                'loads of oids that are not stored',
                'packs during a transaction', 'packs in steps',
                'calls of sync()'])],
    rule='A case is a random history of the Storage interface; distinct by '
         'the calls.',
    technique='runtime monitoring: a dictionary as the model of the storage',
    level_note='Held on the histories that were run.')

REGISTRY['C06'] = Info(
    [Group('states', 'serial', 'states', 4000, 60000, ext='both',
           wall=(60, 500),
           must=['compressed records', 'uncompressed records',
                 'large incompressible states', 'large states',
                 'ghosts loaded']),
     Group('formats', 'serial', 'formats', 1500, 15000, wall=(30, 100))],
    rule='A case is a set of objects of random classes with random states that '
         'are stored and loaded; distinct by the states.',
    technique='runtime monitoring: structural comparison (values, types, '
              'sharing) before and after; records read by an independent '
              'parser',
    level_note='Held on the states that were generated.')

REGISTRY['C07'] = Info(
    [Group('programs', 'cext', 'same_traces', 24000, 400000, ext="c",
           wall=(60, 700),
           must=['accesses', 'changes', 'loads', 'exceptions',
                 'records compared'],
           note='each program is carried out by two processes')],
    rule='A case is a random program that is carried out with the C base '
         'classes and, in another process, with the Python ones; distinct by '
         'the trace.',
    technique='runtime monitoring: differential execution, comparing traces '
              'of results, exceptions, callbacks, states and stored records',
    level_note='Held on the programs that were run.')

REGISTRY['C08'] = Info(
    [Group('hostile', 'cext', 'hostile_program', 1600, 40000, ext='asan',
           wall=(60, 500),
           must=['exceptions', 'collections checked', 'operations'],
           note='AddressSanitizer and UndefinedBehaviorSanitizer; collections '
                'at any time'),
     Group('references', 'cext', 'reference_counts', 800, 10000, ext='c',
           wall=(60, 200), must=['reference counts compared']),
     Group('references under sanitizers', 'cext', 'reference_counts', 100,
           2000, ext='asan', wall=(40, 200)),
     Group('chains', 'cext', 'deep_structures', 40, 200, ext='c',
           wall=(40, 100), must=['chains freed', 'cycles']),
     Group('chains under sanitizers', 'cext', 'deep_structures', 10, 60,
           ext='asan', wall=(40, 100), must=['chains freed'])],
    rule='A case is a random hostile program, a set of operations that are '
         'repeated, or a chain of objects that is freed; distinct by its '
         'operations.',
    technique='runtime monitoring: address and undefined behaviour '
              'sanitizers, reference counts, liveness through weak references',
    level_note='Held on the programs that were run; CPython itself is not '
               'instrumented, but its allocations are checked.',
    assumptions=['object.__setattr__ and the like are not applied to the '
                 'classes themselves.'])

CLIENTS_RULE = (
    'A case is a random interleaving of one to six clients of a real server '
    '(Unix, abstract or TCP sockets; all storages; cache sizes from 1): reads, '
    'blind and ordinary changes, new, unlinked and moved objects, crawling, '
    'cache sweeps, commits, aborts, retries, reconnects, restarts%s; distinct '
    'by its steps.')
CLIENTS_NOTE = ('Held on the interleavings that were run. The requests of the '
                'clients are issued one after another, as the server takes '
                'them.')

REGISTRY['K01'] = Info(
    [Group('clients', 'server', 'serializable', 5000, 100000, ext='both',
           wall=(40, 500), must=['commits', 'commits refused']),
     Group('operations', 'server', 'operations', 3000, 60000, ext='both',
           wall=(40, 300), must=['results compared', 'commits refused']),
     Group('views', 'server', 'serializable_views', 6000, 100000, ext='both',
           wall=(40, 400), must=['commits', 'commits refused']),
     Group('processes', 'concurrent', 'serializable', 200, 4000, ext='both',
           wall=(15, 200), must=['histories explained', 'updates found',
                                 'reads judged', 'servers killed'],
           note='a server process and client processes that run '
                'concurrently; the logs are judged afterwards')],
    rule=CLIENTS_RULE % '' + ' In the second group the objects are containers '
         'and the results of all operations are compared with a serial '
         'execution in the order of commits.',
    technique='runtime monitoring: history of the versions read and written '
              'by each transaction, checked online against the order of '
              'commits; replay of operations on models',
    level_note=CLIENTS_NOTE)

REGISTRY['K02'] = Info(
    [Group('clients', 'server', 'snapshots', 8000, 100000, ext='both',
           wall=(40, 600), must=['commits', 'commits refused',
                                 'reads judged', 'read conflicts',
                                 'objects crawled']),
     Group('views', 'server', 'snapshots_views', 6000, 100000, ext='both',
           wall=(40, 400), must=['commits', 'commits refused']),
     Group('processes', 'concurrent', 'snapshots', 200, 4000, ext='both',
           wall=(15, 200), must=['histories explained', 'updates found',
                                 'reads judged', 'servers killed'],
           note='a server process and client processes that run '
                'concurrently; the logs are judged afterwards')],
    rule=CLIENTS_RULE % '',
    technique='runtime monitoring: every value read belongs to an interval of '
              'commits; the intervals of a transaction must have a common '
              'point',
    level_note=CLIENTS_NOTE)

REGISTRY['K03'] = Info(
    [Group('clients', 'server', 'freshness', 8000, 100000, ext='both',
           wall=(40, 600), must=['commits', 'commits refused',
                                 'reads judged', 'states compared']),
     Group('views', 'server', 'freshness_views', 6000, 100000, ext='both',
           wall=(40, 400), must=['commits', 'commits refused']),
     Group('masses', 'server', 'masses', 120, 2000, ext='both',
           wall=(40, 300), must=['objects changed in one commit',
                                 'objects compared']),
     Group('processes', 'concurrent', 'freshness', 200, 4000, ext='both',
           wall=(15, 200), must=['histories explained', 'updates found',
                                 'reads judged', 'servers killed'],
           note='a server process and client processes that run '
                'concurrently; the logs are judged afterwards')],
    rule=CLIENTS_RULE % '',
    technique='runtime monitoring: versions read are compared with the '
              'commits that precede the transaction boundary; complete '
              'comparisons of what a client finds with the current state',
    level_note=CLIENTS_NOTE)

REGISTRY['K04'] = Info(
    [Group('clients', 'server', 'precision', 8000, 100000, ext='both',
           wall=(40, 600), must=['commits', 'commits refused',
                                 'read conflicts', 'transactions repeated']),
     Group('views', 'server', 'precision_views', 6000, 100000, ext='both',
           wall=(40, 400), must=['commits', 'commits refused'])],
    rule=CLIENTS_RULE % '',
    technique='runtime monitoring: every conflict raised is justified by the '
              'recorded accesses and the commits of others; the same work is '
              'repeated after abort()',
    level_note=CLIENTS_NOTE)

REGISTRY['K07'] = Info(
    [Group('clients', 'server', 'packing', 3000, 60000, ext='both',
           wall=(40, 600), must=['commits', 'commits refused',
                                 'moments within a pack', 'packs finished',
                                 'storages compared after a pack',
                                 'oids used again']),
     Group('automatic packs', 'autopack', 'automatic', 1500, 30000, ext='c',
           wall=(40, 200), must=['packs started automatically',
                                 'packs that did not start',
                                 'packs with a step that failed',
                                 'commits during packs',
                                 'servers that do not pack by themselves',
                                 'storages compared after a pack']),
     Group('processes', 'concurrent', 'packing', 200, 4000, ext='both',
           wall=(15, 200), must=['histories explained', 'updates found',
                                 'reads judged', 'servers killed'],
           note='a server process and client processes that run '
                'concurrently; the logs are judged afterwards')],
    rule=CLIENTS_RULE % ', and the steps of packs on request',
    technique='runtime monitoring: the steps of the packer are interleaved '
              'with the clients by a gate; all monitors of K01-K04 plus a '
              'comparison of the records left with the reachable objects',
    level_note=CLIENTS_NOTE)

REGISTRY['K06'] = Info(
    [Group('requests', 'remote', 'remote', 4000, 80000, ext='c',
           wall=(40, 600),
           must=['commits', 'empty commits', 'commits given up by the client',
                 'conflicts raised by the storage', 'invalid oids compared',
                 'bulk loads with invalid oids', 'bulk loads with missing oids',
                 'loads of invalid oids', 'loads of missing oids',
                 'large records', 'small buffers', 'iterations',
                 'records removed by packs'])],
    rule='A case is a random sequence of requests of one to three '
         'ClientStorage objects to a real server (all kinds of sockets and '
         'storages, streams cut into random pieces, small socket buffers); '
         'distinct by the requests.',
    technique='runtime monitoring: every result is compared with a dictionary '
              'of records and, for each client, the exact set of invalid oids',
    level_note='Held on the requests that were run.')

REGISTRY['K05'] = Info(
    [Group('clients', 'faults', 'failing_clients', 4000, 80000, ext='c',
           wall=(40, 600),
           must=['dialogs cut', 'interrupted commits with effect',
                 'interrupted commits without effect', 'idle connections',
                 'clients that end with stall', 'clients that end with reset',
                 'malformed: foreign oid', 'malformed: bad framing',
                 'packs of clients that failed']),
     Group('processes', 'concurrent', 'killed_clients', 200, 4000, ext='both',
           wall=(15, 200), must=['histories explained', 'updates found',
                                 'clients killed',
                                 'interrupted commits with effect'],
           note='client processes are killed, the logs are judged '
                'afterwards')],
    rule='A case is a random history of clients that work and clients that '
         'fail, in the middle of any request or response or with something '
         'malformed; distinct by the steps.',
    technique='runtime monitoring with fault injection at the sockets: the '
              'records and the sets of invalid oids of all other clients are '
              'compared with a model after each failure',
    level_note='Held on the failures that were injected; the patience of the '
               'server is set to 2.5 s.')

REGISTRY['T01'] = Info(
    [Group('renumber', 'tools', 'renumber', 1000, 20000, ext='both',
           wall=(12, 150), must=['databases renumbered', 'new databases used']),
     Group('copies', 'tools', 'copies', 2000, 40000, ext='c', wall=(12, 150),
           must=['databases copied', 'new databases used']),
     Group('renaming', 'tools', 'renaming', 2000, 40000, ext='c',
           wall=(12, 150), must=['databases touched', 'classes renamed',
                                 'objects touched']),
     Group('conversion', 'tools', 'conversion', 150, 3000, ext='both',
           wall=(12, 150), must=['databases converted', 'new databases used'],
           note='databases as Python 2 wrote them, and db_to_py3k.py'),
     Group('tool', 'tools', 'command_line', 800, 10000, ext='c',
           wall=(12, 150), must=['packs by the tool', 'refusals',
                                 'packs by the tool over server'])],
    rule='A case is a random history of a program; then its database is '
         'renumbered, copied into another storage, touched for the renaming '
         'of classes, or packed by the command line tool; distinct by the '
         'steps.',
    technique='runtime monitoring: the graph found in the result is compared '
              'with that of the model of the program; files that must not be '
              'changed are compared byte by byte',
    level_note='Held on the histories that were run; graphs renumbered are '
               'shallow, as the tool is limited by the recursion of pickle.')

REGISTRY['K08'] = Info(
    [Group('sockets', 'addresses', 'sockets', 3000, 60000, ext='c',
           wall=(8, 100), must=['connections', 'second listeners',
                                'stale sockets', 'obstacles',
                                'impossible options']),
     Group('handover', 'addresses', 'handover', 600, 10000, ext='c',
           wall=(15, 200), must=['handovers']),
     Group('processes', 'addresses', 'process_cases', 200, 4000, ext='c',
           wall=(25, 300), must=['starts', 'impossible starts', 'obstacles',
                                 'commits', 'ends by KILL', 'ends by stop',
                                 'servers on inherited sockets',
                                 'interactive clients',
                                 'commits refused by readers'])],
    rule='A case is a random sequence of starts, uses and ends of servers at '
         'one or two addresses; distinct by the steps.',
    technique='runtime monitoring: a model of which server should be '
              'reachable where and what each database holds is compared '
              'after every step; delays are injected into ending servers',
    level_note='Held on the sequences that were run.')
