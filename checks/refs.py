"""C05: stored references, crawling, census, reference index, listings."""
from durus.connection import Connection, gen_every_instance
from durus.connection import touch_every_reference
from durus.storage import MemoryStorage, gen_oid_class, get_census
from durus.storage import gen_referring_oid_record, get_reference_index
from durus.persistent import Persistent, PersistentObject
from durus.persistent_dict import PersistentDict

from vlib import classes, records
from vlib.case import Violation, require, equal
from vlib.storages import open_storage
from vlib.twins import Twins, KIND, CLASS
from checks.conn import Program, run_program

BATCHES = [1, 2, 3, 7, 100, 10000]


def links_of(stored):
    """{oid: set of oids} for the reachable records, own parser."""
    return dict((oid, refs) for oid, (klass, refs) in stored.items())


def closure(links, start):
    seen = set()
    todo = [start]
    while todo:
        oid = todo.pop()
        if oid not in seen:
            seen.add(oid)
            todo.extend(links[oid])
    return seen


def everything(storage):
    """{oid: (class, refs)} of all records, reachable or not, or None."""
    result = {}
    for oid, record in storage.gen_oid_record():
        oid2, klass, state, found, stored = records.parse(record)
        equal(oid2, oid, 'oid of a record')
        require(oid not in result, '%r comes twice', oid)
        result[oid] = klass, set(ref.oid for ref in found) - set([oid])
        equal(sorted(stored), sorted(result[oid][1]),
              'stored references of %r', oid)
        env_class = dict((ref.oid, ref.klass) for ref in found)
        for ref_oid, ref_klass in env_class.items():
            pass
    return result


def class_name(klass):
    return klass.__name__


def check_listings(rng, env, storage, connection):
    stored = records.scan(storage)
    links = links_of(stored)
    full = everything(storage)
    for oid in stored:
        require(oid in full, '%r is reachable but not listed', oid)
        equal(full[oid][0], stored[oid][0], 'class of %r', oid)
    env.count('records compared', len(full))
    # Census and listings are about all records that the storage has.
    census = {}
    for klass, refs in full.values():
        census[class_name(klass)] = census.get(class_name(klass), 0) + 1
    def decode(x):
        return x.decode() if isinstance(x, bytes) else x
    def short_name(x):
        return decode(x).split('.')[-1].split('\n')[-1].split()[-1]
    observed = {}
    for name, n in get_census(storage).items():
        observed[short_name(name)] = observed.get(short_name(name), 0) + n
    equal(observed, census, 'census')
    names = {}
    listed = {}
    for oid, name in gen_oid_class(storage):
        require(oid not in listed, 'gen_oid_class() lists %r twice', oid)
        listed[oid] = short_name(name)
        names[short_name(name)] = name
    equal(listed, dict((oid, class_name(k)) for oid, (k, r) in full.items()),
          'gen_oid_class()')
    if names:
        some = rng.sample(sorted(names), rng.randrange(1, len(names) + 1))
        equal(sorted(gen_oid_class(storage, *[names[x] for x in some])),
              sorted((oid, names[x]) for oid, x in listed.items()
                     if x in some), 'gen_oid_class(%s)', some)
    index = {}
    for oid, (klass, refs) in full.items():
        for ref in refs:
            index.setdefault(ref, []).append(oid)
    observed = get_reference_index(storage)
    equal(dict((k, sorted(v)) for k, v in observed.items()),
          dict((k, sorted(v)) for k, v in index.items()), 'reference index')
    for oid in rng.sample(sorted(full), min(len(full), 4)):
        found = [x for x, record in gen_referring_oid_record(storage, oid)]
        equal(sorted(found), sorted(index.get(oid, [])),
              'gen_referring_oid_record(%r)', oid)
        env.count('lists of referring objects compared')
    # Instances, through the connection.
    wanted = rng.choice([
        (PersistentObject,), (Persistent,), (PersistentDict,),
        (classes.Slotted,), (classes.Node, classes.PersistentSet),
        (classes.SlottedChild,), (classes.Dict2,), (classes.BTree,)])
    instances = list(gen_every_instance(connection, *wanted))
    equal(sorted(x._p_oid for x in instances),
          sorted(oid for oid, (k, r) in full.items() if issubclass(k, wanted)),
          'gen_every_instance(%s)', wanted)
    for x in instances:
        require(isinstance(x, wanted), '%r is no instance', x)
        require(x is connection.get(x._p_oid), 'instances: another object')
    env.count('instances listed', len(instances))
    del instances
    # Crawling.
    starts = [b'\0' * 8] + rng.sample(sorted(stored), min(2, len(stored)))
    for start in starts:
        size = rng.choice(BATCHES)
        reachable = closure(links, start)
        seen = []
        depth = {}
        for oid, record in storage.gen_oid_record(start_oid=start,
                                                  batch_size=size):
            seen.append(oid)
            equal(record, storage.load(oid), 'record of %r', oid)
        equal(seen[:1], [start], 'first record of a crawl')
        equal(sorted(seen), sorted(reachable),
              'oids from gen_oid_record(%r, batch_size=%d)', start, size)
        seen = []
        for obj in connection.get_crawler(start_oid=start, batch_size=size):
            require(not obj._p_is_ghost(), 'an object is not loaded')
            equal(KIND_NAME.get(type(obj), type(obj).__name__),
                  class_name(stored[obj._p_oid][0]), 'class')
            seen.append(obj._p_oid)
        equal(sorted(seen), sorted(reachable),
              'objects from get_crawler(%r, batch_size=%d)', start, size)
        if start == b'\0' * 8:
            equal(seen[:1], [start], 'first object of a crawl')
        env.count('crawls compared')
        env.count('objects crawled', len(seen))


KIND_NAME = {}


def programs(rng, env):
    program = Program(rng, env, cache_sizes=(1, 5, 100000))
    twins = program.twins
    twins.populate(rng.choice([2, 10, 20]))
    program.commit()
    for _ in range(rng.randrange(1, 5)):
        for _ in range(rng.randrange(1, 15)):
            twins.mutate()
        program.commit()
        connection = program.connection if rng.random() < 0.5 else \
            Connection(program.storage, cache_size=rng.choice([1, 1000]))
        check_listings(rng, env, program.storage, connection)
        connection = None
        twins.check('listing has changed the state')
        n = rng.random()
        if n < 0.2:
            program.reopen()
            check_listings(rng, env, program.storage, program.connection)
        elif n < 0.4:
            program.pack()
            stored = records.scan(program.storage)
            equal(sorted(everything(program.storage)), sorted(stored),
                  'records after a pack')
            check_listings(rng, env, program.storage, program.connection)
        elif n < 0.5:
            program.abort()
    env.nontrivial = len(twins.stored) > 3


def shapes(rng, env):
    """Larger graphs, with self references, cycles, and hubs."""
    kind = rng.choice(['FileStorage', 'FileStorage2', 'SqliteStorage',
                       'MemoryStorage'])
    storage = MemoryStorage() if kind == 'MemoryStorage' else \
        open_storage(kind, env.fresh('db'))
    env.cleanup(storage.close)
    connection = Connection(storage)
    count = rng.choice([5, 40, 250])
    if rng.random() < 0.02:
        count = 6000
    nodes = [classes.Node() for _ in range(count)]
    shape = rng.choice(['chain', 'complete', 'star', 'random', 'self',
                        'nested'])
    if count > 1000:
        shape = 'wide'
    env.op(kind, count, shape)
    root = connection.get_root()
    for i, node in enumerate(nodes):
        if shape == 'chain':
            if i + 1 < count:
                node.next = nodes[i + 1]
        elif shape == 'complete':
            node.all = nodes[:40]
        elif shape == 'star':
            node.hub = nodes[0]
            root[i] = node
        elif shape == 'random':
            node.some = [rng.choice(nodes) for _ in range(rng.randrange(4))]
        elif shape == 'wide':
            if i == 0:
                node.all = nodes[:]
                env.count('objects with thousands of references')
        elif shape == 'self':
            node.me = node
            node.again = [node, {'me': node, 'next': nodes[(i + 1) % count]}]
        else:
            node.deep = {'a': [(rng.choice(nodes), {1: [rng.choice(nodes)]})],
                         'b': (None, rng.choice(nodes))}
            node.dup = [rng.choice(nodes)] * 3
    root['first'] = nodes[0]
    root['root'] = root
    env.op(rng.random())
    connection.commit()
    for _ in range(rng.randrange(3)):
        node = rng.choice(nodes)
        node.extra = rng.choice(nodes)
        node.next = None
        connection.commit()
    # Expected, from the objects in memory.
    def refs(x, out):
        if isinstance(x, PersistentObject):
            out.add(x._p_oid)
        elif isinstance(x, (list, tuple)):
            for y in x:
                refs(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                refs(y, out)
        return out
    stored = records.scan(storage)
    for node in nodes:
        if node._p_oid in stored:
            equal(stored[node._p_oid][1],
                  refs(node.__dict__, set()) - set([node._p_oid]),
                  'references of %r', node)
    check_listings(rng, env, storage, Connection(
        storage, cache_size=rng.choice([1, 1000])))
