"""C03: every mutation is stored by the next commit, reads never write."""
import gc

from durus.btree import BTree, BNode, BNode4, BNode16
from durus.connection import Connection
from durus.error import ConflictError
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet
from durus.storage import MemoryStorage

from vlib import classes, ops
from vlib.case import Violation, require, equal, short
from vlib.storages import Shared


class CountingStorage(MemoryStorage):

    stores = 0

    def store(self, oid, record):
        self.stores += 1
        MemoryStorage.store(self, oid, record)


NAMES = ['a', 'b', '_x', '__y', '_p', 'p_', 'label', '\u00e9', 'value', 'items',
         'next', '_P_x', '__dict', 'get']


MISSING = object()


def gen_node_op(rng):
    name = rng.choice(NAMES)
    v = ops.item(rng)
    def set_model(m):
        m[name] = v
    def del_model(m):
        del m[name]
    def set_real(x):
        setattr(x, name, v)
    def del_real(x):
        delattr(x, name)
    def aug_model(m):
        m['n'] = m['n'] + 1
    def aug_real(x):
        try:
            x.n += 1
        except AttributeError:
            raise KeyError('n')
    def swap_model(m):
        m[name], m['b'] = m['a'], v
    def swap_real(x):
        value = x.a
        setattr(x, name, value)
        x.b = v
    def absent(x):
        return hasattr(x, 'no_such_thing')
    def get_model(m):
        return m.get(name, MISSING)
    def get_real(x):
        return x.__dict__.get(name, MISSING)
    return rng.choice([
        ('set ' + name, True, set_model, set_real),
        ('set ' + name, True, set_model, set_real),
        ('object.set ' + name, True, set_model,
         lambda x: x.__setattr__(name, v)),
        ('del ' + name, True, del_model, del_real),
        ('n += 1', True, aug_model, aug_real),
        ('swap', True, swap_model, swap_real),
        ('get ' + name, False, get_model, get_real),
        ('getattr ' + name, False, lambda m: m.get(name, MISSING) is not MISSING,
         lambda x: hasattr(x, name) and (
            name != 'label' or x.label != 'class attribute')),
        ('hasattr', False, lambda m: False, absent),
        ('vars', False, lambda m: sorted(m), lambda x: sorted(vars(x))),
        ('getstate', False, lambda m: sorted(m),
         lambda x: sorted(x.__getstate__())),
        ('class', False, lambda m: None,
         lambda x: [x.__class__, repr(x), str(x), hash(x), x == x] and None),
        ('type', False, lambda m: True,
         lambda x: isinstance(x, classes.Persistent)),
    ])


SLOTS = ['a', 'b', 'd', 'c', 'cc']


def gen_slot_op(rng):
    name = rng.choice(SLOTS)
    v = ops.item(rng)
    def set_model(m):
        m[name] = v
    def set_real(x):
        if name == 'c':
            x.set_c(v)
        elif name == 'cc':
            x.set_cc(v)
        else:
            setattr(x, name, v)
    def del_model(m):
        del m[name]
    def del_real(x):
        if name == 'c':
            x.del_c()
        elif name == 'cc':
            x.del_cc()
        else:
            delattr(x, name)
    def get_real(x):
        try:
            if name == 'c':
                return x.get_c()
            if name == 'cc':
                return x.get_cc()
            return getattr(x, name)
        except AttributeError:
            return MISSING
    return rng.choice([
        ('set ' + name, True, set_model, set_real),
        ('set ' + name, True, set_model, set_real),
        ('del ' + name, True, del_model, del_real),
        ('get ' + name, False, lambda m: m.get(name, MISSING), get_real),
        ('hasattr', False, lambda m: 'a' in m, lambda x: hasattr(x, 'a')),
    ])


def gen_tree_op(rng):
    k, v = rng.randrange(40), ops.item(rng)
    k2 = rng.randrange(40)
    more = dict((rng.randrange(40), ops.item(rng))
                for _ in range(rng.choice([0, 1, 3, 10])))
    def set_item(m):
        m[k] = v
    def del_item(m):
        del m[k]
    def add(m):
        m[k] = v
    def del_slice(x):
        return list(x.items_range(k, k2))
    def range_model(m):
        pairs = [(a, b) for a, b in m.items()]
        if k <= k2:
            return [p for p in sorted(pairs, key=lambda p: p[0])
                    if k <= p[0] < k2]
        return [p for p in sorted(pairs, key=lambda p: -p[0])
                if k2 < p[0] <= k]
    def in_place_model(m):
        if isinstance(m.get(k), list):
            m[k] = m[k] + [v]
    def in_place(x):
        value = x.get(k)
        if isinstance(value, list):
            value.append(v)
            x.note_change_of_bnode_containing_key(k)
    def put_list(m):
        m[k] = [v]
    def clear_model(m):
        m.clear()
    def popitem_model(m):
        if not m:
            raise KeyError
        k = min(m)
        return k, m.pop(k)
    def popitem_real(x):
        if not x:
            raise KeyError
        return x.popitem()
    s = lambda m: sorted(m.items(), key=lambda p: p[0])
    return rng.choice([
        ('set %r' % k, True, set_item, set_item),
        ('set %r' % k, True, set_item, set_item),
        ('put list %r' % k, True, put_list, put_list),
        ('in place %r' % k, True, in_place_model, in_place),
        ('in place %r' % k, True, in_place_model, in_place),
        ('add %r' % k, True, add, lambda x: x.add(k, v)),
        ('del %r' % k, True, del_item, del_item),
        ('del %r' % k, True, del_item, del_item),
        ('setdefault %r' % k, True, lambda m: m.setdefault(k, v),
         lambda x: x.setdefault(k, v)),
        ('update %r' % more, True, lambda m: m.update(more),
         lambda x: x.update(more)),
        ('pop %r' % k, True, lambda m: m.pop(k, None),
         lambda x: x.pop(k, None)),
        ('popitem', True, popitem_model, popitem_real),
        ('clear', True, clear_model, clear_model),
        ('get', False, lambda m: m.get(k), lambda x: x.get(k)),
        ('in', False, lambda m: k in m, lambda x: k in x),
        ('len', False, len, len),
        ('bool', False, bool, bool),
        ('iterate', False, lambda m: [a for a, b in s(m)], list),
        ('items', False, s, lambda x: x.items()),
        ('values', False, lambda m: [b for a, b in s(m)],
         lambda x: x.values()),
        ('backward', False, lambda m: s(m)[::-1],
         lambda x: list(x.items_backward())),
        ('range', False, range_model, del_slice),
        ('from', False, lambda m: [p for p in s(m) if p[0] >= k],
         lambda x: list(x.items_from(k))),
        ('depth', False, lambda m: None,
         lambda x: x.get_depth() and x.get_node_count() and None),
        ('min', False, lambda m: s(m)[0] if m else None,
         lambda x: x.get_min_item() if x else None),
    ])


def container_op(kind):
    def gen(rng):
        name, write, f = ops.GEN_OP[kind](rng)
        return (name, write, lambda m: f(m, lambda x: x.builtin(m)),
                lambda x: f(x, lambda y: y.persistent(x)))
    return gen


GEN = {'node': gen_node_op, 'slot': gen_slot_op, 'btree': gen_tree_op,
       'pdict': container_op('pdict'), 'plist': container_op('plist'),
       'pset': container_op('pset')}


def state(kind, x):
    if kind == 'node':
        return dict(x.__dict__)
    if kind == 'slot':
        result = {}
        for name in SLOTS:
            try:
                result[name] = (x.get_c() if name == 'c' else
                                x.get_cc() if name == 'cc' else
                                getattr(x, name))
            except AttributeError:
                pass
        return result
    if kind == 'btree':
        return dict(x.items())
    if kind == 'pdict':
        return list(x.items())
    if kind == 'plist':
        return list(x)
    return set(x)


def model_state(kind, m):
    return list(m.items()) if kind == 'pdict' else \
        type(m)(m)


def copy_model(m):
    if isinstance(m, dict):
        return dict((k, list(v) if isinstance(v, list) else v)
                    for k, v in m.items())
    return type(m)(m)


def strict(x):
    """1, True and 1.0 differ, as they do for a program that looks."""
    if isinstance(x, dict):
        return sorted(((repr(k), repr(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return sorted(repr(v) for v in x)
    return repr(x)


def single(rng, env):
    kind = rng.choice(list(GEN))
    if rng.random() < 0.25:
        rng.items = ops.ALIKE
    gen = GEN[kind]
    storage = CountingStorage()
    if rng.random() < 0.3:
        from vlib.storages import Shared
        shared = Shared()
        storage = shared.view()
    cache_size = rng.choice([1, 2, 1000])
    connection = Connection(storage, cache_size=cache_size)
    if kind == 'node':
        real, model = rng.choice([classes.Node, classes.Leaf])(), {}
        if type(real) is classes.Leaf and rng.random() < 0.5:
            real.label = model['label'] = 'own'
        real.n = model['n'] = 0
    elif kind == 'slot':
        real, model = classes.SlottedChild(), {}
    elif kind == 'btree':
        real, model = BTree(rng.choice([BNode, BNode, BNode4, BNode16])), {}
        for _ in range(rng.choice([0, 3, 20, 30])):
            k = rng.randrange(40)
            real[k] = model[k] = ops.item(rng)
            if rng.random() < 0.3:
                real[k], model[k] = [1], [1]
    elif kind == 'pdict':
        model = dict((ops.key(rng), ops.item(rng)) for _ in range(4))
        real = PersistentDict(model)
    elif kind == 'plist':
        model = [ops.item(rng) for _ in range(rng.randrange(6))]
        real = PersistentList(model)
    else:
        model = set(ops.set_item(rng) for _ in range(rng.randrange(6)))
        real = PersistentSet(model)
    env.op(kind, type(real).__name__, short(model), cache_size,
           type(storage).__name__)
    connection.get_root()['x'] = real
    connection.commit()
    saved = copy_model(model)
    for _ in range(rng.randrange(1, 12)):
        # What the program holds, and in which status it is.
        n = rng.randrange(6)
        env.op('status', n)
        if n == 0:
            connection = Connection(storage, cache_size=cache_size)
            real = None
        elif n == 1:
            real = None
            connection.shrink_cache()
        elif n == 2:
            real = connection.get_root()['x']
            real._p_set_status_ghost()
        elif n == 3:
            real = connection.get_root()['x']
            state(kind, real)
        elif n == 4 and kind == 'btree':
            for node_oid in list(connection.cache.objects):
                obj = connection.cache.get(node_oid)
                if obj is not None and obj is not connection.get_root():
                    obj._p_set_status_ghost()
            obj = None
        if real is None:
            real = connection.get_root()['x']
        ghost = real._p_is_ghost()
        before = copy_model(model)
        stores = storage.stores
        reads = rng.random() < 0.35
        wrote = False
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            while True:
                name, write, on_model, on_real = gen(rng)
                if not (reads and write):
                    break
            env.op(name)
            try:
                expected = 'ok', on_model(model)
            except Exception as e:
                expected = 'raised', None
            try:
                observed = 'ok', on_real(real)
            except Exception as e:
                observed = 'raised', e
            equal(observed[0], expected[0], 'result of %s of a %s%s', name,
                  kind, ' (not loaded)' if ghost else '')
            if expected[0] == 'ok' and kind in ('node', 'slot', 'btree'):
                equal(observed[1], expected[1], 'result of %s of a %s', name,
                      kind)
            wrote = wrote or write
            env.count('operations on a ' + kind)
            if ghost:
                env.count('operations on a %s that is not loaded' % kind)
                ghost = False
        observed = expected = None
        changed = repr(model_state(kind, model)) != \
            repr(model_state(kind, before))
        m = rng.randrange(3)
        if m == 0:
            env.op('abort')
            connection.abort()
            model = copy_model(before)
            equal(storage.stores, stores, 'records stored by abort()')
            if rng.random() < 0.5:
                real = None
                real = connection.get_root()['x']
            equal(strict(state(kind, real)), strict(model_state(kind, model)),
                  'a %s after abort() of %s', kind, name)
            env.count('aborted')
        else:
            env.op('commit')
            if rng.random() < 0.3:
                real = None # The connection remembers it.
                gc.collect() if rng.random() < 0.1 else None
                if rng.random() < 0.5:
                    connection.shrink_cache()
            connection.commit()
            count = storage.stores - stores
            if changed:
                require(count > 0, 'a change of a %s was not stored: %s',
                        kind, name)
                env.count('changes stored')
            elif not wrote:
                equal(count, 0, 'records stored after operations on a %s '
                      'that only read: %s', kind, name)
                env.count('reads without a write')
            saved = copy_model(model)
            other = Connection(storage)
            equal(strict(state(kind, other.get_root()['x'])),
                  strict(model_state(kind, model)),
                  'a %s seen by a new connection after %s', kind, name)
            other = None
            if real is None:
                real = connection.get_root()['x']
            equal(strict(state(kind, real)), strict(model_state(kind, model)),
                  'a %s after commit() of %s', kind, name)
        # Nothing is left over for the next transaction.
        stores = storage.stores
        connection.commit()
        equal(storage.stores, stores, 'records stored by an empty commit')


def links(rng, env):
    """
    Replacing one new or stored object by another: only the links change.
    Moving an object between containers, objects that are linked and unlinked
    before they are stored, changes after objects have been stored.
    """
    storage = CountingStorage()
    connection = Connection(storage, cache_size=rng.choice([1, 1000]))
    root = connection.get_root()
    places = [classes.Node(), PersistentDict(), PersistentList([None]),
              BTree(BNode)]
    for i, place in enumerate(places):
        root[i] = place
    connection.commit()
    links = [None] * 4
    objects = [PersistentDict(n=i) for i in range(4)]
    values = list(range(4))
    stored = [None] * 4, list(values)
    dirty = [True] * 4
    for step in range(rng.randrange(3, 25)):
        i, j = rng.randrange(4), rng.randrange(4)
        place = connection.get_root()[i]
        n = rng.randrange(5)
        if n < 2:
            env.op('link', i, j)
            target, links[i] = objects[j], j
            if i == 0:
                place.x = target
            elif i == 2:
                place[0] = target
            else:
                place['x'] = target
        elif n == 2:
            env.op('unlink', i)
            links[i] = None
            if i == 0:
                place.x = None
            elif i == 2:
                place[0] = None
            else:
                place['x'] = None
        elif n == 3:
            env.op('change', j)
            values[j] = objects[j]['n'] = step + 100
        elif n == 4:
            env.op('commit')
            connection.commit()
            other = Connection(storage).get_root()
            for k in range(4):
                x = (getattr(other[k], 'x', None) if k == 0 else
                     other[k][0] if k == 2 else other[k].get('x'))
                if links[k] is None:
                    equal(x, None, 'place %d', k)
                else:
                    equal(x['n'], values[links[k]],
                          'object %d in place %d after a commit', links[k], k)
                    for l in range(k):
                        y = (getattr(other[l], 'x', None) if l == 0 else
                             other[l][0] if l == 2 else other[l].get('x'))
                        if links[l] is not None:
                            equal(y is x, links[k] == links[l], 'sharing')
            env.count('links compared')
            stores = storage.stores
            connection.commit()
            equal(storage.stores, stores, 'records stored by an empty commit')
