"""
Programs on persistent objects that are carried out twice: on real durus
objects and on a plain Python model (class M).  The model knows nothing about
oids, pickles, ghosts or caches: only object states, links, and what a commit
or an abort means.

canon() writes an object graph down in a canonical form: objects are numbered
in order of discovery from the root, so that two graphs give the same text
exactly if they are isomorphic (same values, classes and sharing).
"""
import hashlib

from durus.persistent import PersistentObject
from vlib import classes
from vlib.case import Violation, require, short

KINDS = ['node', 'pdict', 'plist', 'pset', 'btree', 'slot', 'leaf']
CLASS = {
    'node': classes.Node, 'leaf': classes.Leaf, 'pdict': classes.PersistentDict,
    'dict2': classes.Dict2, 'plist': classes.PersistentList,
    'pset': classes.PersistentSet, 'btree': classes.BTree,
    'slot': classes.SlottedChild}
KIND = dict((v, k) for k, v in CLASS.items())
SLOTS = ['a', 'b', 'c', 'cc', 'd'] # c and cc are private ones.


class M(object):
    """A model object: kind is one of KINDS."""
    __slots__ = ['kind', 'data', 'label', '__weakref__']

    def __init__(self, kind, label):
        self.kind = kind
        self.label = label
        if kind in ('plist',):
            self.data = []
        elif kind == 'pset':
            self.data = set()
        else:
            self.data = {}

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.label)


def copy_value(v):
    if isinstance(v, list):
        return [copy_value(x) for x in v]
    if isinstance(v, tuple):
        return tuple(copy_value(x) for x in v)
    if isinstance(v, dict):
        return dict((copy_value(k), copy_value(x)) for k, x in v.items())
    if isinstance(v, set):
        return set(v)
    return v


def gen_refs(v):
    """Generate the model objects that a plain value refers to."""
    if isinstance(v, M):
        yield v
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            yield from gen_refs(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from gen_refs(k)
            yield from gen_refs(x)


def reachable(roots):
    todo = list(roots)
    seen = set()
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo.extend(gen_refs(m.data))
    return seen


# Descriptions: object -> (kind, state as plain data)

def describe_model(m):
    if m.kind == 'btree':
        return 'btree', [(k, m.data[k]) for k in sorted(m.data)]
    return m.kind, m.data


def get_slot(obj, name):
    if name == 'c':
        return obj.get_c()
    if name == 'cc':
        return obj.get_cc()
    return getattr(obj, name)


def describe_real(obj):
    kind = KIND.get(type(obj))
    if kind in ('node', 'leaf'):
        return kind, dict(obj.__dict__)
    if kind in ('pdict', 'dict2'):
        return kind, dict(obj.items())
    if kind == 'plist':
        return kind, list(obj)
    if kind == 'pset':
        return kind, set(obj)
    if kind == 'btree':
        items = list(obj.iteritems())
        require(len(items) == len(obj), 'len() of a BTree is %r with %r items',
                len(obj), len(items))
        return kind, items
    if kind == 'slot':
        state = {}
        for name in SLOTS:
            try:
                state[name] = get_slot(obj, name)
            except AttributeError:
                pass
        return kind, state
    raise Violation('object of unexpected class %r' % type(obj))


def set_key(v):
    if isinstance(v, (M, PersistentObject)):
        return 'P' # at most one persistent object in a set.
    return 'V' + repr(v)


class Canon(object):

    def __init__(self, describe, is_persistent):
        self.describe = describe
        self.is_persistent = is_persistent

    def __call__(self, root, limit=100000):
        self.numbers = {id(root): 0}
        self.order = [root]
        self.out = []
        n = 0
        while n < len(self.order):
            kind, state = self.describe(self.order[n])
            self.out.append('%d %s %s' % (n, kind, self.encode(state)))
            n += 1
            require(n < limit, 'the graph does not end')
        return self.out

    def encode(self, v):
        if self.is_persistent(v):
            if id(v) not in self.numbers:
                self.numbers[id(v)] = len(self.order)
                self.order.append(v)
            return '#%d' % self.numbers[id(v)]
        if isinstance(v, list):
            return '[%s]' % ', '.join([self.encode(x) for x in v])
        if isinstance(v, tuple):
            return '(%s)' % ', '.join([self.encode(x) for x in v])
        if isinstance(v, dict):
            return '{%s}' % ', '.join(
                ['%s: %s' % (self.encode(k), self.encode(v[k]))
                 for k in sorted(v, key=set_key)])
        if isinstance(v, (set, frozenset)):
            return '{%s}' % ', '.join(
                [self.encode(x) for x in sorted(v, key=set_key)])
        return '%s' % (v,) if type(v) is int else repr(v)


def canon_model(root):
    return Canon(describe_model, lambda v: isinstance(v, M))(root)


def canon_real(root):
    c = Canon(describe_real, lambda v: isinstance(v, PersistentObject))
    out = c(root)
    # The same oid always means the same object, and the other way round.
    oids = {}
    for obj in c.order:
        oid = obj._p_oid
        if oid is not None:
            require(oids.setdefault(oid, obj) is obj,
                    'two objects for oid %r: %r and %r', oid, obj,
                    oids.get(oid))
    return out


def digest(lines):
    return hashlib.sha256('\n'.join(lines).encode(
        'utf8', 'backslashreplace')).hexdigest()[:16]


def compare(observed, expected, message):
    if observed != expected:
        lines = [message]
        for n in range(max(len(observed), len(expected))):
            a = observed[n] if n < len(observed) else '(none)'
            b = expected[n] if n < len(expected) else '(none)'
            if a != b:
                lines.append('  observed: %s' % short(a, 600))
                lines.append('  expected: %s' % short(b, 600))
                if len(lines) > 8:
                    break
        raise Violation('\n'.join(lines))


WORDS = ['alpha', 'beta', 'gamma', 'delta', 'k1', 'k2', 'k3', '\u00e9t\u00e9']


class Twins(object):
    """
    The program's handles.  self.real maps the model objects to real objects;
    it is the only place where the program keeps references to real objects.
    """
    def __init__(self, rng, env, connection, kinds=KINDS, big=0.03,
                 max_objects=60):
        self.rng = rng
        self.env = env
        self.kinds = kinds
        self.big = big
        self.max_objects = max_objects
        self.serial = 0
        self.root = M('pdict', 'root')
        self.stored = {self.root: {}} # model object -> committed data
        self.changed = set()
        self.real = {}
        self.attach(connection)

    def attach(self, connection):
        """Continue with another connection to the same database."""
        self.connection = connection
        for m in list(self.real):
            if m in self.stored:
                del self.real[m]
        self.real[self.root] = connection.get_root()

    def populate(self, n, keys=12):
        """Link n new objects from the root."""
        for _ in range(n):
            child = self.create()
            for _ in range(self.rng.randrange(3)):
                self.mutate(child)
            key = 'child%d' % self.rng.randrange(keys)
            self.root.data[key] = child
            self.handle(self.root)[key] = self.to_real(child)
            self.note_change(self.root)

    def crowd(self, n):
        """Change n objects, which have no other purpose."""
        rng = self.rng
        holder = self.root.data.get('crowd')
        if not isinstance(holder, M) or holder.label != 'crowd':
            holder = M('plist', 'crowd')
            self.real[holder] = CLASS['plist']()
            self.root.data['crowd'] = holder
            self.handle(self.root)['crowd'] = self.real[holder]
            self.note_change(self.root)
        real = self.handle(holder)
        size = rng.choice([0, 10, 1000])
        self.env.op('crowd', n, size, len(holder.data))
        chosen = set(rng.sample(range(len(holder.data)),
                                min(n, len(holder.data))))
        for i in sorted(chosen):
            holder.data[i].data['v'] = v = rng.randbytes(rng.randrange(
                size + 1))
            real[i].v = v
            self.real[holder.data[i]] = real[i]
            self.changed.add(holder.data[i])
        for i in range(n - len(chosen)):
            m = M('leaf', 'crowd')
            m.data['v'] = v = rng.randbytes(rng.randrange(size + 1))
            self.real[m] = CLASS['leaf']()
            self.real[m].v = v
            holder.data.append(m)
            real.append(self.real[m])
            self.changed.update([m, holder])
        self.env.count('changes of crowds', n)

    # Finding handles

    def pairs(self):
        """Relate model objects and real ones again, by walking from root."""
        mapping = {self.root: self.connection.get_root()}
        todo = [self.root]
        while todo:
            m = todo.pop()
            for child, real in self.child_pairs(m, mapping[m]):
                if child not in mapping:
                    mapping[child] = real
                    todo.append(child)
        return mapping

    def child_pairs(self, m, obj):
        if isinstance(obj, PersistentObject):
            state = describe_real(obj)[1]
            model_state = describe_model(m)[1]
        else:
            state, model_state = obj, m
        if isinstance(model_state, M):
            yield model_state, state
        elif isinstance(model_state, (list, tuple)):
            for a, b in zip(model_state, state):
                yield from self.value_pairs(a, b)
        elif isinstance(model_state, dict):
            for k in model_state:
                if k in state:
                    yield from self.value_pairs(model_state[k], state[k])
        elif isinstance(model_state, (set, frozenset)):
            a = [x for x in model_state if isinstance(x, M)]
            b = [x for x in state if isinstance(x, PersistentObject)]
            if a and b:
                yield a[0], b[0]

    def value_pairs(self, a, b):
        if isinstance(a, M):
            yield a, b
        elif isinstance(a, (list, tuple, dict, set)):
            yield from self.child_pairs(a, b)

    def forget(self, keep=0.0):
        """Drop references to real objects, so that caches may drop them."""
        for m in list(self.real):
            if (m in self.stored and m not in self.changed and
                m is not self.root and self.rng.random() >= keep):
                del self.real[m]

    def handle(self, m):
        """The real object for m, found by navigation if necessary."""
        if m not in self.real:
            path = self.find_path(m)
            if path is None:
                return None
            obj = self.connection.get_root()
            for parent, child in path:
                for a, b in self.child_pairs(parent, obj):
                    if a is child:
                        obj = b
                        break
                else:
                    raise Violation('%r is no longer in %r' % (child, parent))
            self.real[m] = obj
        return self.real[m]

    def find_path(self, m):
        """-> [(parent, child)] from the root to m, or None."""
        previous = {self.root: None}
        todo = [self.root]
        while todo:
            new = []
            for parent in todo:
                for child in gen_refs(parent.data):
                    if child not in previous:
                        previous[child] = parent
                        new.append(child)
            if m in previous:
                path = []
                while previous[m] is not None:
                    path.append((previous[m], m))
                    m = previous[m]
                return path[::-1]
            todo = new
        return None

    # Making values

    def word(self):
        return self.rng.choice(WORDS)

    def scalar(self):
        rng = self.rng
        n = rng.randrange(9)
        if rng.random() < self.big:
            return rng.randbytes(rng.choice([300, 5000, 21000, 70000]))
        if n < 3:
            self.serial += 1
            return self.serial
        if n == 3:
            return self.word() * rng.randrange(4)
        if n == 4:
            return rng.choice([None, True, False, -1, 2**70, 1.5, ''])
        if n == 5:
            return rng.randbytes(rng.randrange(12))
        if n == 6:
            return tuple(rng.randrange(5) for _ in range(rng.randrange(4)))
        return rng.randrange(1000)

    def value(self, depth=0):
        """A plain value of the model, which may contain model objects."""
        rng = self.rng
        n = rng.random()
        if n < 0.35 and depth < 3:
            m = self.some_object()
            if m is not None:
                return m
        if n < 0.45 and depth < 2:
            return [self.value(depth + 1) for _ in range(rng.randrange(4))]
        if n < 0.52 and depth < 2:
            return dict((self.word(), self.value(depth + 1))
                        for _ in range(rng.randrange(3)))
        if n < 0.56 and depth < 2:
            return tuple(self.value(depth + 1) for _ in range(rng.randrange(3)))
        return self.scalar()

    def some_object(self):
        """A model object to refer to: an existing one or a new one."""
        rng = self.rng
        candidates = self.known()
        if len(candidates) < self.max_objects and rng.random() < 0.6:
            return self.create()
        return rng.choice(candidates) if candidates else None

    def known(self):
        """Model objects that the program can reach or holds."""
        seen = set(self.real)
        seen.update(reachable([self.root]))
        seen = [m for m in seen if m.label != 'crowd']
        return sorted(seen, key=lambda m: m.label if type(m.label) is int
                      else -1)

    def create(self, kind=None):
        self.serial += 1
        m = M(kind or self.rng.choice(self.kinds), self.serial)
        self.real[m] = CLASS[m.kind]()
        if m.kind == 'btree' and self.rng.random() < 0.7:
            self.real[m] = classes.BTree(classes.BNode)
        self.env.op('create', repr(m))
        return m

    def to_real(self, v):
        if isinstance(v, M):
            obj = self.handle(v)
            assert obj is not None
            return obj
        if isinstance(v, list):
            return [self.to_real(x) for x in v]
        if isinstance(v, tuple):
            return tuple([self.to_real(x) for x in v])
        if isinstance(v, dict):
            return dict((k, self.to_real(x)) for k, x in v.items())
        if isinstance(v, set):
            return set(self.to_real(x) for x in v)
        return v

    # Mutations

    def note_change(self, m):
        self.changed.add(m)
        self.env.count('mutations of a ' + m.kind)

    def mutate(self, m=None):
        rng = self.rng
        if m is None:
            candidates = [x for x in self.known() if self.handle(x) is not None]
            m = rng.choice(candidates)
            if rng.random() < 0.2:
                m = self.root
        real = self.handle(m)
        self.env.op('mutate', repr(m))
        getattr(self, 'mutate_' + m.kind)(m, real)
        self.note_change(m)
        return m

    def mutate_node(self, m, real):
        rng = self.rng
        if m.data and rng.random() < 0.25:
            name = rng.choice(sorted(m.data))
            del m.data[name]
            delattr(real, name)
        else:
            name, v = self.word(), self.value()
            m.data[name] = copy_value(v)
            setattr(real, name, self.to_real(v))

    mutate_leaf = mutate_node

    def mutate_slot(self, m, real):
        rng = self.rng
        name = rng.choice(SLOTS)
        if name in m.data and rng.random() < 0.3:
            del m.data[name]
            if name == 'c':
                real.del_c()
            elif name == 'cc':
                real.del_cc()
            else:
                delattr(real, name)
        else:
            v = self.value()
            m.data[name] = copy_value(v)
            if name == 'c':
                real.set_c(self.to_real(v))
            elif name == 'cc':
                real.set_cc(self.to_real(v))
            else:
                setattr(real, name, self.to_real(v))

    def mutate_pdict(self, m, real):
        rng = self.rng
        n = rng.randrange(9)
        if n == 0 and m.data:
            k = rng.choice(sorted(m.data))
            del m.data[k]
            del real[k]
        elif n == 1 and m.data:
            k = rng.choice(sorted(m.data))
            m.data.pop(k)
            real.pop(k)
        elif n == 2:
            v = dict((self.word(), self.value()) for _ in range(3))
            m.data.update(copy_value(v))
            real.update(self.to_real(v))
        elif n == 3:
            k, v = self.word(), self.value()
            m.data.setdefault(k, copy_value(v))
            real.setdefault(k, self.to_real(v))
        elif n == 4 and rng.random() < 0.2 and m is not self.root:
            m.data.clear()
            real.clear()
        elif n == 5 and m is self.root:
            # Keep a population of objects alive.
            child = self.some_object()
            if child is not None:
                k = 'child%d' % rng.randrange(12)
                m.data[k] = child
                real[k] = self.to_real(child)
        else:
            k, v = self.word(), self.value()
            m.data[k] = copy_value(v)
            real[k] = self.to_real(v)

    mutate_dict2 = mutate_pdict

    def mutate_plist(self, m, real):
        rng = self.rng
        n = rng.randrange(9)
        size = len(m.data)
        if n == 0 and size:
            j = rng.randrange(-size, size)
            del m.data[j]
            del real[j]
        elif n == 1 and size:
            j, v = rng.randrange(-size, size), self.value()
            m.data[j] = copy_value(v)
            real[j] = self.to_real(v)
        elif n == 2:
            j, v = rng.randrange(-2, size + 3), self.value()
            m.data.insert(j, copy_value(v))
            real.insert(j, self.to_real(v))
        elif n == 3:
            v = [self.value() for _ in range(rng.randrange(4))]
            m.data.extend(copy_value(v))
            real.extend(self.to_real(v))
        elif n == 4 and size:
            j = rng.randrange(-size, size)
            m.data.pop(j)
            real.pop(j)
        elif n == 5:
            m.data.reverse()
            real.reverse()
        elif n == 6:
            j, k = sorted([rng.randrange(size + 1), rng.randrange(size + 1)])
            v = [self.value() for _ in range(rng.randrange(3))]
            m.data[j:k] = copy_value(v)
            real[j:k] = self.to_real(v)
        else:
            v = self.value()
            m.data.append(copy_value(v))
            real.append(self.to_real(v))
        if len(m.data) > 20:
            del m.data[10:]
            del real[10:]

    def mutate_pset(self, m, real):
        rng = self.rng
        n = rng.randrange(7)
        scalars = sorted((x for x in m.data if not isinstance(x, M)), key=repr)
        if n == 0 and scalars:
            v = rng.choice(scalars)
            m.data.remove(v)
            real.remove(v)
        elif n == 1:
            v = [self.word() for _ in range(rng.randrange(4))]
            m.data.update(v)
            real.update(v)
        elif n == 2:
            v = rng.choice(scalars) if scalars else 1
            m.data.discard(v)
            real.discard(v)
        elif n == 3 and not any(isinstance(x, M) for x in m.data):
            child = self.some_object()
            if child is not None and child.kind in ('node', 'leaf', 'slot'):
                # at most one, so that it can be identified.
                m.data.add(child)
                real.add(self.to_real(child))
        elif n == 4:
            v = set([self.word(), rng.randrange(5)])
            m.data ^= v
            real ^= v
        else:
            v = rng.choice([rng.randrange(50), self.word(),
                            (1, rng.randrange(9))])
            m.data.add(v)
            real.add(v)

    def mutate_btree(self, m, real):
        rng = self.rng
        n = rng.randrange(6)
        if n == 0 and m.data:
            k = rng.choice(sorted(m.data))
            del m.data[k]
            del real[k]
        elif n == 1:
            v = dict((rng.randrange(60), self.value())
                     for _ in range(rng.randrange(12)))
            m.data.update(copy_value(v))
            real.update(self.to_real(v))
        elif n == 2 and len(m.data) > 5 and rng.random() < 0.3:
            for k in rng.sample(sorted(m.data), 5):
                del m.data[k]
                del real[k]
        else:
            k, v = rng.randrange(60), self.value()
            m.data[k] = copy_value(v)
            real[k] = self.to_real(v)

    # Transactions

    def commit_model(self):
        """What a successful commit does to the model."""
        todo = [m for m in self.changed if m in self.stored]
        self.newly_stored = []
        seen = set(todo)
        while todo:
            m = todo.pop()
            if m not in self.stored:
                self.newly_stored.append(m)
            self.stored[m] = copy_value(m.data)
            self.changed.discard(m)
            for child in gen_refs(m.data):
                if child not in seen and child not in self.stored:
                    seen.add(child)
                    todo.append(child)

    def abort_model(self):
        for m, data in self.stored.items():
            m.data = copy_value(data)
            self.changed.discard(m)

    def drop_missing(self, storage):
        """During a pack, without uncommitted changes: let go of stored objects
        that are not reachable and that have been removed already."""
        missing = set()
        for m in self.stored:
            real = self.real.get(m)
            if real is not None and real._p_oid is not None:
                try:
                    storage.load(real._p_oid)
                except KeyError:
                    missing.add(m)
        if missing:
            self.drop_unreachable(missing)

    def drop_unreachable(self, among=None):
        """Before a pack: let go of stored objects that are not reachable."""
        alive = reachable([self.root])
        for m in list(self.stored):
            if m not in alive and (
                    among is None or not among.isdisjoint(reachable([m]))):
                del self.stored[m]
                self.real.pop(m, None)
                self.changed.discard(m)
        # New objects may still refer to them.
        bad = True
        while bad:
            bad = False
            for m in list(self.real):
                if m not in self.stored:
                    for child in gen_refs(m.data):
                        if child not in self.stored and child not in self.real:
                            del self.real[m]
                            self.changed.discard(m)
                            bad = True
                            break

    def expected(self):
        return canon_model(self.root)

    def observed(self, connection=None):
        return canon_real((connection or self.connection).get_root())

    def check(self, message, connection=None):
        compare(self.observed(connection), self.expected(), message)
        self.env.count('graphs compared')
