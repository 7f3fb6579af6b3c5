"""
B01: BTree against a sorted dictionary, and its structure.
B02: persistent containers against the built-in ones.
U01: packed arrays against lists and sets.
"""
import io

from durus.btree import BTree, BNode, BNode4, BNode8, BNode16, BNode32
from durus.btree import BNode64, BNode512
from durus.connection import Connection
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet
from durus.storage import MemoryStorage

from vlib import ops
from vlib.case import Violation, require, equal, short
from vlib.trees import check_tree, forget_counts

BUILTIN = {'pdict': dict, 'plist': list, 'pset': set}
PERSISTENT = {'pdict': PersistentDict, 'plist': PersistentList,
              'pset': PersistentSet}


class MissingDict(dict):
    def __missing__(self, key):
        if key == 'zz':
            raise KeyError(key)
        return ('missing', key)


class PersistentMissingDict(PersistentDict):
    def __missing__(self, key):
        if key == 'zz':
            raise KeyError(key)
        return ('missing', key)


def containers(rng, env):
    """B02"""
    kind = rng.choice(['pdict', 'plist', 'pset'])
    if rng.random() < 0.15:
        rng.items = ops.ALIKE
    builtin, persistent = BUILTIN[kind], PERSISTENT[kind]
    if kind == 'pdict' and rng.random() < 0.2:
        builtin, persistent = MissingDict, PersistentMissingDict
    if kind == 'pdict':
        start = dict((ops.key(rng), ops.item(rng)) for _ in range(4))
        if rng.random() < 0.2:
            start = list(start.items())
    else:
        start = [ops.set_item(rng) for _ in range(rng.randrange(6))]
    connection = None
    if rng.random() < 0.7:
        connection = Connection(MemoryStorage(),
                                cache_size=rng.choice([1, 1000]))
    model = builtin(start)
    real = persistent(start)
    if connection is not None:
        connection.get_root()['x'] = real
        connection.commit()
    env.op(kind, start, str(connection is not None))
    saved = builtin(model)
    for _ in range(rng.randrange(5, 60)):
        name, write, f = ops.GEN_OP[kind](rng)
        env.op(name)
        if kind == 'pset' and rng.random() < 0.03 and model:
            v = real.pop()
            require(v in model, 'pop() -> %r', v)
            model.remove(v)
        before = ops.norm(model)
        status, result = ops.run(f, model, 'builtin')
        status2, result2 = ops.run(f, real, 'persistent')
        if status == 'ok' and status2 == 'ok':
            expected = ops.norm(result, model)
            observed = ops.norm(result2, real)
        else:
            expected, observed = result, result2
        equal((status2, observed), (status, expected),
              '%s of a %s, which was %s', name, kind, short(before))
        equal(ops.norm(real), ops.norm(model), 'contents of a %s after %s',
              kind, name)
        if not write:
            equal(ops.norm(model), before, 'model')
        env.count('operations on a ' + kind)
        if status == 'raised':
            env.count('operations that raise')
        if connection is not None and rng.random() < 0.15:
            n = rng.randrange(4)
            if n == 0:
                env.op('commit')
                connection.commit()
                saved = builtin(model)
            elif n == 1:
                env.op('abort')
                connection.abort()
                model = builtin(saved)
            elif n == 2:
                env.op('commit and load again')
                connection.commit()
                saved = builtin(model)
                connection = Connection(connection.get_storage())
                real = connection.get_root()['x']
            else:
                connection.commit()
                saved = builtin(model)
                real._p_set_status_ghost()
            equal(ops.norm(real), ops.norm(model),
                  'contents of a %s after %s', kind, env.trace[-1])


# B01

def tree_keys(rng):
    n = rng.randrange(4)
    size = rng.choice([8, 30, 100, 400])
    if n == 0:
        return ['k%03d' % i for i in range(size)]
    if n == 1:
        return [(i // 7, i % 7) for i in range(size)]
    if n == 2:
        return [i * 0.5 for i in range(size)]
    return list(range(-size // 2, size // 2))


def btree(rng, env):
    degree = rng.choice([BNode, BNode, BNode, BNode4, BNode4, BNode8, BNode16])
    if env.tier == 'thorough' and rng.random() < 0.1:
        degree = rng.choice([BNode32, BNode64, BNode512])
    run_btree(rng, env, degree, tree_keys(rng), rng.choice([30, 150, 400]))


def big_btree(rng, env):
    degree = rng.choice([BNode16, BNode32, BNode64, BNode512, BNode])
    run_btree(rng, env, degree, list(range(rng.choice([3000, 5000]))),
              3000, bulk=True)


def run_btree(rng, env, degree, keys, steps, bulk=False):
    env.op('BTree', degree.__name__, len(keys))
    connection = None
    tree = BTree(degree) if degree is not BNode16 or rng.random() < 0.5 \
        else BTree()
    model = {}
    if rng.random() < 0.6:
        connection = Connection(MemoryStorage(),
                                cache_size=rng.choice([1, 5, 100000]))
        connection.get_root()['tree'] = tree
        connection.commit()
    saved = {}
    old = False # without counts
    grow = rng.random()
    deepest = 0
    serial = 0
    absent = object()

    def order(reverse=False):
        return sorted(model.items(), key=lambda kv: kv[0], reverse=reverse)

    for step in range(steps):
        if rng.random() < 0.03:
            grow = rng.random()
        serial += 1
        key = rng.choice(keys)
        n = rng.random()
        if n < 0.62:
            insert = rng.random() < 0.2 + 0.6 * grow
            if insert:
                m = rng.randrange(6)
                if m == 0:
                    env.op('add', key)
                    tree.add(key)
                    model[key] = True
                elif m == 1:
                    env.op('setdefault', key)
                    equal(tree.setdefault(key, serial),
                          model.setdefault(key, serial), 'setdefault')
                elif m == 2:
                    more = dict((rng.choice(keys), serial)
                                for _ in range(rng.choice([1, 5, 20])))
                    env.op('update', more)
                    shape = rng.randrange(4)
                    if shape == 0:
                        tree.update(more)
                    elif shape == 1:
                        tree.update(list(more.items()))
                    elif shape == 2:
                        tree.update(PersistentDict(more))
                    else:
                        other = BTree(rng.choice([BNode, BNode16]))
                        other.update(more)
                        tree.update(other)
                    model.update(more)
                else:
                    env.op('set', key)
                    tree[key] = serial
                    model[key] = serial
            else:
                m = rng.randrange(6)
                if m < 4:
                    if model and rng.random() < 0.75:
                        key = rng.choice(list(model))
                        if rng.random() < 0.2:
                            key = rng.choice([min(model), max(model)])
                    env.op('del', key)
                    try:
                        del tree[key]
                        removed = True
                    except KeyError:
                        removed = False
                    equal(removed, key in model, 'del %r', key)
                    model.pop(key, None)
                    env.count('deletions' if removed else 'failing deletions')
                elif m == 4:
                    env.op('pop', key)
                    equal(tree.pop(key, absent), model.pop(key, absent), 'pop')
                elif model:
                    k = min(model)
                    env.op('popitem')
                    equal(tree.popitem(), (k, model.pop(k)), 'popitem')
        elif n < 0.9:
            m = rng.randrange(12)
            k2 = rng.choice(keys)
            if m == 0:
                env.op('get', key)
                equal(tree.get(key, absent), model.get(key, absent), 'get')
                try:
                    v = tree[key]
                except KeyError:
                    v = absent
                equal(v, model.get(key, absent), 'getitem %r', key)
            elif m == 1:
                env.op('in', key)
                equal([key in tree, tree.has_key(key)], [key in model] * 2,
                      '%r in tree', key)
            elif m == 2:
                env.op('iterate')
                equal(list(tree), [k for k, v in order()], 'iter')
                equal(tree.keys(), [k for k, v in order()], 'keys')
                equal(tree.values(), [v for k, v in order()], 'values')
                equal(tree.items(), order(), 'items')
                equal(list(tree.iterkeys()), [k for k, v in order()],
                      'iterkeys')
                equal(list(tree.itervalues()), [v for k, v in order()],
                      'itervalues')
            elif m == 3:
                env.op('reversed')
                equal(list(reversed(tree)), [k for k, v in order(True)],
                      'reversed')
                equal(list(tree.items_backward()), order(True),
                      'items_backward')
            elif m == 4:
                closed = rng.choice([True, False])
                env.op('items_from', key, closed)
                equal(list(tree.items_from(key, closed=closed)),
                      [(k, v) for k, v in order()
                       if k > key or closed and k == key], 'items_from')
                equal(list(tree.items_from(key)),
                      [(k, v) for k, v in order() if k >= key], 'items_from')
            elif m == 5:
                closed = rng.choice([True, False])
                env.op('items_backward_from', key, closed)
                equal(list(tree.items_backward_from(key, closed=closed)),
                      [(k, v) for k, v in order(True)
                       if k < key or closed and k == key],
                      'items_backward_from')
                equal(list(tree.items_backward_from(key)),
                      [(k, v) for k, v in order(True) if k < key],
                      'items_backward_from')
            elif m in (6, 7, 8):
                cs = rng.choice([True, False])
                ce = rng.choice([True, False])
                if m == 8:
                    k2 = key
                env.op('items_range', key, k2, cs, ce)
                if key <= k2:
                    expected = [(k, v) for k, v in order()
                                if (k > key or cs and k == key) and
                                (k < k2 or ce and k == k2)]
                else:
                    expected = [(k, v) for k, v in order(True)
                                if (k < key or cs and k == key) and
                                (k > k2 or ce and k == k2)]
                equal(list(tree.items_range(key, k2, closed_start=cs,
                                            closed_end=ce)),
                      expected, 'items_range(%r, %r, %r, %r)', key, k2, cs, ce)
            elif m == 9:
                env.op('min max')
                if model:
                    equal(tree.get_min_item(), order()[0], 'get_min_item')
                    equal(tree.get_max_item(), order()[-1], 'get_max_item')
            elif m == 10:
                env.op('len')
                equal(len(tree), len(model), 'len')
                equal(bool(tree), bool(model), 'bool')
            else:
                env.op('note_change')
                if key in model:
                    tree.note_change_of_bnode_containing_key(key)
        elif n < 0.905:
            env.op('clear')
            tree.clear()
            model.clear()
            old = False
        elif n < 0.915:
            d = rng.choice([2, 4, 8, 16, 512])
            env.op('set_bnode_minimum_degree', d)
            was = tree.root.minimum_degree
            done = tree.set_bnode_minimum_degree(d)
            if d != 2:
                equal(done, d != was, 'set_bnode_minimum_degree')
                equal(tree.root.minimum_degree, d, 'minimum_degree')
            if done:
                old = False
        elif n < 0.925 and not old:
            env.op('forget counts')
            forget_counts(tree)
            old = True
            env.count('trees without counts')
        elif connection is not None:
            m = rng.randrange(4)
            if m == 0:
                env.op('commit')
                connection.commit()
                saved = dict(model), old
            elif m == 1:
                env.op('abort')
                connection.abort()
                model, old = (dict(saved[0]), saved[1]) if saved else \
                    ({}, False)
            elif m == 2:
                env.op('commit and load again')
                connection.commit()
                saved = dict(model), old
                connection = Connection(connection.get_storage(),
                                        cache_size=rng.choice([1, 100000]))
                tree = connection.get_root()['tree']
            else:
                env.op('shrink')
                connection.commit()
                saved = dict(model), old
                connection.set_cache_size(1)
                connection.shrink_cache()
                connection.set_cache_size(100000)
        if not bulk and (step % 5 == 0 or rng.random() < 0.2) or \
                bulk and step % 200 == 0:
            facts = check_tree(tree, exact_counts=not old)
            deepest = max(deepest, facts['depth'])
            env.count('tree structures checked')
            equal(len(tree), len(model), 'len()')
            equal(tree.items(), order(), 'items')
    facts = check_tree(tree, exact_counts=not old)
    env.count('tree structures checked')
    equal(tree.items(), order(), 'items')
    if rng.random() < 0.3:
        env.op('delete everything')
        left = list(model)
        rng.shuffle(left)
        for k in left:
            del tree[k]
            del model[k]
            if len(left) < 100 or rng.random() < 0.02:
                check_tree(tree, exact_counts=not old)
        equal((len(tree), bool(tree), list(tree)), (0, False, []), 'empty')
        tree[keys[0]] = 1
        equal(tree.items(), [(keys[0], 1)], 'items')
    env.count('trees of depth %d' % max(deepest, facts['depth']))
    env.nontrivial = max(deepest, facts['depth']) > 1


# U01

class Medium(object):
    """A file with something before the array."""
    def __init__(self, rng, env):
        from durus.file import File
        n = rng.randrange(3)
        self.kind = ['BytesIO', 'File', 'temporary File'][n]
        if n == 0:
            self.file = io.BytesIO()
        elif n == 1:
            self.file = File(env.fresh('file'))
        else:
            self.file = File(dir=env.tmp)
        self.prefix = rng.randbytes(rng.choice([0, 0, 1, 7, 100, 5000]))
        self.file.write(self.prefix)
        self.start = len(self.prefix)
        env.cleanup(self.file.close)

    def rewind(self):
        self.file.seek(self.start)
        return self.file

    def check(self, size=None):
        self.file.seek(0)
        data = self.file.read()
        equal(data[:self.start], self.prefix, 'bytes before the array')
        if size is not None:
            equal(len(data), self.start + size, 'size of the file')


def refuses(env, message, check, f):
    """f must raise, and not change anything."""
    try:
        f()
    except Exception:
        env.count('refusals')
        check()
    else:
        raise Violation('not refused: ' + message)


def byte_array(rng, env):
    from durus.utils import ByteArray
    medium = Medium(rng, env)
    size = rng.choice([0, 1, 5, 100, 8195, 8196, 8197, 20000])
    array = ByteArray(size, file=medium.file)
    env.op('ByteArray', medium.kind, size, medium.start)
    model = bytearray(size)
    def check():
        equal(len(array), len(model), 'len')
        if model:
            equal(array[0:len(model)], bytes(model), 'contents')
        medium.check(len(model))
    check()
    for _ in range(rng.randrange(3, 25)):
        n = rng.randrange(7)
        size = len(model)
        if n == 0:
            j = rng.randrange(-2, size + 2)
            v = rng.randbytes(1)
            env.op('set', j)
            def f():
                array[j] = v
            if 0 <= j < size:
                f()
                model[j:j + 1] = v
                equal(array[j], v, 'item')
            else:
                refuses(env, 'index %d of %d' % (j, size), check, f)
                refuses(env, 'index', check, lambda: array[j])
        elif n == 1 and size:
            j = rng.randrange(size)
            k = rng.randrange(j + 1, size + 1)
            v = rng.randbytes(k - j)
            env.op('set slice', j, k)
            array[j:k] = v
            model[j:k] = v
            equal(array[j:k], v, 'slice')
        elif n == 2 and size:
            j = rng.randrange(size)
            k = rng.randrange(j + 1, size + 1)
            v = rng.randbytes(k - j + rng.choice([-1, 1, 5]))
            env.op('set wrong slice', j, k, len(v))
            def f():
                array[j:k] = v
            refuses(env, 'wrong length', check, f)
            def f():
                array[j] = v * 3
            if len(v) * 3 != 1:
                refuses(env, 'wrong length', check, f)
        elif n == 3:
            bigger = size + rng.choice([0, 1, 3, 200, 8196, 10000])
            env.op('set_size', bigger)
            if rng.random() < 0.5:
                array.set_size(bigger)
                model.extend(bytes(bigger - size))
            else:
                b = rng.randbytes(1)
                array.set_size(bigger, b)
                model.extend(b * (bigger - size))
        elif n == 4:
            env.op('open again')
            array = ByteArray(size, file=medium.rewind())
        elif n == 5:
            env.op('iterate')
            equal(b''.join(array), bytes(model), 'iteration')
        else:
            j, k = rng.choice([(-1, 2), (0, size + 1), (size, size + 1),
                               (3, 2), (5, size + 5)])
            env.op('bad slice', j, k)
            refuses(env, 'slice %d:%d of %d' % (j, k, size), check,
                    lambda: array[j:k])
            def f():
                array[j:k] = bytes(max(0, k - j))
            refuses(env, 'slice %d:%d of %d' % (j, k, size), check, f)
        env.count('array operations')
    check()


def bit_array(rng, env):
    from durus.utils import BitArray, Byte
    medium = Medium(rng, env)
    size = rng.choice([0, 1, 7, 8, 9, 100, 1000])
    env.op('BitArray', medium.kind, size, medium.start)
    array = BitArray(size, file=medium.file)
    model = [0] * size
    def check():
        equal(list(array), model, 'bits')
        equal(len(array), len(model), 'len')
        equal(str(array), ''.join(map(str, model)), 'str')
        medium.check((len(model) + 7) // 8)
    check()
    for _ in range(rng.randrange(5, 60)):
        n = rng.randrange(6)
        size = len(model)
        if n < 3 and size:
            j = rng.randrange(-size, size)
            v = rng.choice([0, 1, True, False])
            env.op('set', j, v)
            array[j] = v
            model[j] = int(v)
            equal([array[i] for i in (j, j - 1 if j > -size else j)],
                  [model[i] for i in (j, j - 1 if j > -size else j)], 'bits')
        elif n == 3:
            bigger = size + rng.choice([0, 1, 2, 7, 8, 9, 100])
            env.op('set_size', bigger)
            array.set_size(bigger)
            model.extend([0] * (bigger - size))
        elif n == 4:
            j = rng.choice([size, size + 1, -size - 1, size + 8])
            env.op('bad index', j)
            def f():
                array[j] = 1
            refuses(env, 'index %d of %d' % (j, size), check, f)
            refuses(env, 'index %d of %d' % (j, size), check,
                    lambda: array[j])
        else:
            env.op('open again')
            array = BitArray(size, file=medium.rewind())
        env.count('array operations')
    check()
    value = rng.randrange(256)
    byte = Byte(value)
    bits = [int(c) for c in '{:08b}'.format(value)]
    equal([byte[i] for i in range(8)], bits, 'Byte')
    for _ in range(10):
        j, v = rng.randrange(-8, 8), rng.randrange(2)
        byte[j] = v
        bits[j] = v
        equal([byte[i] for i in range(-8, 8)], bits + bits, 'Byte')
        equal(int(byte), int(''.join(map(str, bits)), 2), 'Byte')
        equal(byte.byte(), bytes([int(byte)]), 'Byte')


def int_array(rng, env):
    from durus.utils import IntArray, WordArray
    medium = Medium(rng, env)
    count = rng.choice([0, 1, 2, 10, 300, 3000])
    maximum = rng.choice([None, 0, 1, 254, 255, 256, 65534, 65535, 65536,
                          2**24 - 2, 2**24 - 1, 2**32 - 2, 2**32 - 1, 2**40,
                          2**63, 2**64 - 2])
    env.op('IntArray', medium.kind, count, maximum)
    array = IntArray(file=medium.file, number_of_ints=count,
                     maximum_int=maximum)
    top = 2**64 - 2 if maximum is None else maximum
    blank = array.get_blank_value()
    require(blank > top, 'blank value %r, maximum %r', blank, top)
    width = len('%x' % blank) // 2
    model = [None] * count
    def check():
        equal(len(array), count, 'len')
        equal(list(array), [blank if v is None else v for v in model], 'ints')
        equal(list(array.iteritems()),
              [(j, v) for j, v in enumerate(model) if v is not None],
              'iteritems')
        equal([array.get(j, 'absent') for j in range(count)][:50],
              ['absent' if v is None else v for v in model][:50], 'get')
        medium.check(24 + count * width)
    check()
    for _ in range(rng.randrange(5, 60)):
        n = rng.randrange(6)
        if n < 3 and count:
            j = rng.randrange(-count, count)
            v = rng.choice([0, 1, top, max(0, top - 1), top // 2,
                            rng.randrange(top + 1)])
            env.op('set', j, v)
            array[j] = v
            model[j] = v
            equal([array[j], array.get(j)], [v, v], 'item')
        elif n == 3:
            j = rng.choice([count, count + 1, -count - 1])
            env.op('bad index', j)
            def f():
                array[j] = 0
            refuses(env, 'index %d of %d' % (j, count), check, f)
            refuses(env, 'index %d of %d' % (j, count), check,
                    lambda: array[j])
            equal(array.get(j, 'absent'), 'absent', 'get')
        elif n == 4 and count:
            v = rng.choice([blank + 1, blank * 256, -1, 2**64, 2**70])
            j = rng.randrange(count)
            env.op('bad value', v)
            if v > blank or v < 0:
                def f():
                    array[j] = v
                refuses(env, 'value %r with maximum %r' % (v, maximum), check,
                        f)
        elif n == 5:
            env.op('open again')
            array = IntArray(file=medium.rewind())
        env.count('array operations')
    check()
    # Words of any size.
    medium = Medium(rng, env)
    size = rng.choice([1, 2, 3, 5, 8, 13])
    count = rng.choice([1, 3, 50])
    env.op('WordArray', size, count)
    words = WordArray(file=medium.file, bytes_per_word=size,
                      number_of_words=count)
    model = [bytes(size)] * count
    def check():
        equal(list(words), model, 'words')
        medium.check(24 + size * count)
    check()
    for _ in range(10):
        j = rng.randrange(-count, count)
        v = rng.randbytes(size)
        words[j] = v
        model[j] = v
        equal(words[j], v, 'word')
        def f():
            words[j] = v + b'x'
        refuses(env, 'wrong length', check, f)
        if rng.random() < 0.3:
            words = WordArray(file=medium.rewind())
            equal((words.get_bytes_per_word(), len(words)), (size, count),
                  'dimensions')
    check()


def int_set(rng, env):
    from durus.utils import IntSet
    if rng.random() < 0.5:
        medium = Medium(rng, env)
        size = rng.choice([0, 1, 7, 8, 100, 1023])
        array = IntSet(size=size, file=medium.file)
        env.op('IntSet', medium.kind, size)
    else:
        medium = None
        array = IntSet() if rng.random() < 0.7 else IntSet(size=3)
        env.op('IntSet')
    model = set()
    limit = rng.choice([5, 50, 1025, 5000, 100000])
    for _ in range(rng.randrange(5, 120)):
        n = rng.randrange(4)
        v = rng.randrange(limit)
        if rng.random() < 0.2:
            v = rng.choice([1022, 1023, 1024, 1025, 0, 7, 8])
        if n < 2:
            env.op('add', v)
            array.add(v)
            model.add(v)
        elif n == 2:
            env.op('discard', v)
            array.discard(v)
            model.discard(v)
        for x in (v, v + 1, v - 1 if v else 0, rng.randrange(limit)):
            equal(x in array, x in model, '%r in set', x)
        env.count('array operations')
    for x in range(min(limit, 3000)):
        equal(x in array, x in model, '%r in set', x)
    if medium is not None:
        medium.check()


def holes(rng, env):
    """The holes of an offset map, and the names a shelf hands out."""
    from durus.file import File
    from durus.shelf import Shelf
    from durus.utils import int8_to_str, str_to_int8
    limit = rng.choice([1, 2, 5, 40, 300])
    density = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    names = [j for j in range(limit) if rng.random() < density]
    order = names[:]
    rng.shuffle(order)
    env.op('shelf', order)
    values = dict((j, rng.randbytes(rng.choice([0, 1, 50, 300])))
                  for j in names)
    path = env.fresh('shelf')
    file = File(path)
    env.cleanup(file.close)
    shelf = Shelf(file, items=[(int8_to_str(j), values[j]) for j in order])
    for again in range(2):
        if again:
            file.close()
            shelf = Shelf(path)
            env.cleanup(shelf.close)
        offset_map = shelf.get_offset_map()
        n = offset_map.get_array_size()
        expected = sorted(set(range(n)) - set(names))
        observed = list(offset_map.gen_holes())
        equal(sorted(observed), expected, 'holes of an offset map')
        equal(sorted(offset_map), names, 'used positions')
        env.count('holes', len(observed))
        positions = dict(offset_map.iteritems())
        equal(sorted(positions), names, 'positions of an offset map')
        for j in range(n):
            equal(offset_map.get(j, 'none'), positions.get(j, 'none'),
                  'entry %d of an offset map', j)
            try:
                entry = offset_map[j]
            except IndexError:
                entry = 'none'
            equal(entry, positions.get(j, 'none'),
                  'entry %d of an offset map', j)
        for j in (n, n + 1, n + 1000):
            equal(offset_map.get(j), None, 'entry beyond an offset map')
        equal(sorted(shelf), [int8_to_str(j) for j in names], 'names')
        equal(dict(shelf.iteritems()),
              dict((int8_to_str(j), v) for j, v in values.items()), 'items')
        for j in range(limit + 3):
            name = int8_to_str(j)
            equal(shelf.get_value(name), values.get(j), 'value of %d', j)
            equal(name in shelf, j in values, '%d in shelf', j)
            if j in values:
                equal(shelf.get_item_at_position(shelf.get_position(name)),
                      (name, values[j]), 'item at a position')
        more = [int8_to_str(limit + 5), int8_to_str(0)]
        fresh = [str_to_int8(shelf.next_name()) for _ in range(n + 20)]
        require(len(set(fresh)) == len(fresh), 'names handed out twice')
        require(not set(fresh) & set(values), 'used names handed out')
        require(set(expected) <= set(fresh), 'holes are not used')
        # Changes after the offset map.
        for _ in range(3):
            changes = dict((rng.choice(names + fresh), rng.randbytes(20))
                           for _ in range(rng.randrange(5)))
            shelf.store([(int8_to_str(j), v) for j, v in changes.items()])
            values.update(changes)
        names = sorted(values)
        equal(dict(shelf.iteritems()),
              dict((int8_to_str(j), v) for j, v in values.items()), 'items')
        if again == 0:
            # The memory index is not part of the offset map.
            names = [j for j in names if j in order]
            values_now = dict(values)
            shelf.close()
            shelf = Shelf(path)
            equal(dict(shelf.iteritems()),
                  dict((int8_to_str(j), v) for j, v in values_now.items()),
                  'items after opening again')
            taken = [str_to_int8(shelf.next_name()) for _ in range(n + 20)]
            require(not set(taken) & set(values), 'used names handed out')
            require(len(set(taken)) == len(taken), 'names handed out twice')
            shelf.close()
            break
    env.nontrivial = len(order) > 0
