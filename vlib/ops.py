"""
Operations that persistent containers share with the built-in ones.

An operation is (name, is_write, function); function(c, operand) carries it out
on the container c, with operand(x) giving the form that an operand x takes.
"""
import operator

from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet


class Operand(object):
    """An operand that is a container: plain, persistent or the container."""
    def __init__(self, value, mode):
        self.value = value
        self.mode = mode

    def __repr__(self):
        return '%s:%r' % (self.mode, self.value)

    def builtin(self, c):
        if self.mode == 'self':
            return c
        return type(self.value)(self.value)

    def persistent(self, c):
        if self.mode == 'self':
            return c
        value = type(self.value)(self.value)
        if self.mode == 'persistent':
            if isinstance(value, dict):
                return PersistentDict(value)
            if isinstance(value, list):
                return PersistentList(value)
            return PersistentSet(value)
        return value


def norm(x, c=None, depth=0):
    """The value of a result, whatever kind of container it is."""
    if c is not None and x is c:
        return 'THE CONTAINER ITSELF'
    if isinstance(x, (PersistentList, list)):
        return ['list'] + [norm(v, c, depth + 1) for v in x]
    if isinstance(x, (PersistentDict, dict)):
        return ['dict'] + [(norm(k), norm(v, c, depth + 1))
                           for k, v in x.items()]
    if isinstance(x, (PersistentSet, set, frozenset)):
        return ['set'] + sorted((repr(v) for v in x))
    if isinstance(x, tuple):
        return tuple(norm(v, c, depth + 1) for v in x)
    if isinstance(x, (type({}.keys()), type({}.values()), type({}.items()))):
        return ['list'] + [norm(v, c, depth + 1) for v in x]
    if hasattr(x, '__next__'):
        return ['list'] + [norm(v, c, depth + 1) for v in x]
    if x is NotImplemented:
        return 'NotImplemented'
    return (type(x).__name__, repr(x))


def run(f, c, which):
    """-> ('ok', result) or ('raised', class name)"""
    try:
        result = f(c, lambda x: getattr(x, which)(c))
    except Exception as e:
        kind = type(e)
        while kind.__module__ != 'builtins':
            kind = kind.__mro__[1]
        return 'raised', kind.__name__
    return 'ok', result


def key(rng):
    return rng.choice(['a', 'b', 'c', 'd', 1, 2, 3, (1, 2), None, 'zz', b'a'])


ITEMS = [0, 1, 2, 3, 4, 'a', 'b', (1,), 2.5, True, None]
ALIKE = [1, True, 1.0, 0, False] # Equal, but not the same.


def item(rng):
    return rng.choice(getattr(rng, 'items', ITEMS))


def number(rng):
    return rng.randrange(6)


def mode(rng, persistent=True):
    return rng.choice(['plain', 'persistent', 'self'] if persistent
                      else ['plain'])


# dict

def dict_operand(rng):
    return Operand(dict((key(rng), item(rng))
                        for _ in range(rng.randrange(4))), mode(rng))


class KeysOnly(object):
    """Something with keys() that is not a dictionary."""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


def gen_dict_op(rng):
    k, v, v2 = key(rng), item(rng), item(rng)
    bad = rng.random() < 0.04
    if bad:
        k = rng.choice([[], {}])
    other = dict_operand(rng)
    pairs = [(key(rng), item(rng)) for _ in range(rng.randrange(4))]
    if rng.random() < 0.06:
        pairs.insert(rng.randrange(len(pairs) + 1),
                     rng.choice([(1,), (1, 2, 3), 5]))
    kwargs = dict((x, item(rng)) for x in ['a', 'b', 'kw']
                  if rng.random() < 0.4)
    def set_item(c, o):
        c[k] = v
    def del_item(c, o):
        del c[k]
    def key_object(c, o):
        return c.update(KeysOnly(dict(other.value)))
    def for_loop(c, o):
        return [x for x in c]
    return rng.choice([
        ('d[%r]' % (k,), False, lambda c, o: c[k]),
        ('d[%r] = %r' % (k, v), True, set_item),
        ('d[%r] = %r' % (k, v), True, set_item),
        ('d[%r] = %r' % (k, v), True, set_item),
        ('del d[%r]' % (k,), True, del_item),
        ('get(%r)' % (k,), False, lambda c, o: c.get(k)),
        ('get(%r, %r)' % (k, v), False, lambda c, o: c.get(k, v)),
        ('setdefault(%r)' % (k,), True, lambda c, o: c.setdefault(k)),
        ('setdefault(%r, %r)' % (k, v), True,
         lambda c, o: c.setdefault(k, v)),
        ('pop(%r)' % (k,), True, lambda c, o: c.pop(k)),
        ('pop(%r, %r)' % (k, v), True, lambda c, o: c.pop(k, v)),
        ('pop(k, 1, 2)', True, lambda c, o: c.pop(k, v, v2)),
        ('popitem()', True, lambda c, o: c.popitem()),
        ('update(%r)' % other, True, lambda c, o: c.update(o(other))),
        ('update(%r, **%r)' % (other, kwargs), True,
         lambda c, o: c.update(o(other), **kwargs)),
        ('update(**%r)' % kwargs, True, lambda c, o: c.update(**kwargs)),
        ('update(%r)' % pairs, True, lambda c, o: c.update(pairs)),
        ('update(iter(%r))' % pairs, True,
         lambda c, o: c.update(iter(pairs))),
        ('update(KeysOnly(%r))' % other.value, True, key_object),
        ('update(None)', True, lambda c, o: c.update(None)),
        ('update(x, y)', True, lambda c, o: c.update({}, {})),
        ('update()', True, lambda c, o: c.update()),
        ('clear()', True, lambda c, o: c.clear()),
        ('copy()', False, lambda c, o: c.copy()),
        ('list(keys())', False, lambda c, o: list(c.keys())),
        ('list(values())', False, lambda c, o: list(c.values())),
        ('list(items())', False, lambda c, o: list(c.items())),
        ('list(d)', False, lambda c, o: list(c)),
        ('for', False, for_loop),
        ('len', False, lambda c, o: len(c)),
        ('bool', False, lambda c, o: bool(c)),
        ('in %r' % (k,), False, lambda c, o: k in c),
        ('not in %r' % (k,), False, lambda c, o: k not in c),
        ('sorted keys', False, lambda c, o: sorted(map(repr, c.keys()))),
        ('fromkeys', False, lambda c, o: type(c).fromkeys(['a', k], v)),
        ('fromkeys', False, lambda c, o: c.fromkeys(['a', 'b'])),
        ('==', False, lambda c, o: c == c.copy()),
        ('!=', False, lambda c, o: c != c.copy()),
        ('== self', False, lambda c, o: c == c),
        ('dict()', False, lambda c, o: dict(c)),
    ])


# list

def list_operand(rng):
    return Operand([item(rng) for _ in range(rng.randrange(5))], mode(rng))


def slice_of(rng):
    def bound():
        return rng.choice([None, None, 0, 1, 2, 3, 5, 9, -1, -2, -4, -9])
    step = rng.choice([None, None, None, 1, 2, 3, -1, -2])
    if rng.random() < 0.03:
        step = 0
    return slice(bound(), bound(), step)


def gen_list_op(rng):
    v, v2 = item(rng), item(rng)
    j = rng.randrange(-6, 7)
    k = rng.randrange(-6, 7)
    s = slice_of(rng)
    plain = slice(s.start, s.stop)
    n = rng.choice([-1, 0, 1, 2, 3])
    other = list_operand(rng)
    numbers = rng.random() < 0.3
    compare = rng.choice([operator.lt, operator.le, operator.gt, operator.ge,
                          operator.eq, operator.ne])
    def set_item(c, o):
        c[j] = v
    def set_slice(c, o):
        c[s] = o(other)
    def set_plain_slice(c, o):
        c[plain] = o(other)
    def del_item(c, o):
        del c[j]
    def del_slice(c, o):
        del c[s]
    def iadd(c, o):
        c += o(other)
        return c
    def iadd_iterator(c, o):
        c += iter(other.value)
        return c
    def imul(c, o):
        c *= n
        return c
    def make_sortable(c, o):
        c[:] = [x if type(x) is int else 7 for x in c]
        c.sort(reverse=bool(n > 0))
    return rng.choice([
        ('append(%r)' % (v,), True, lambda c, o: c.append(v)),
        ('append(%r)' % (v,), True, lambda c, o: c.append(v)),
        ('append(%r)' % (v,), True, lambda c, o: c.append(v)),
        ('insert(%r, %r)' % (j, v), True, lambda c, o: c.insert(j, v)),
        ('extend(%r)' % other, True, lambda c, o: c.extend(o(other))),
        ('extend(iter(%r))' % other.value, True,
         lambda c, o: c.extend(iter(other.value))),
        ('extend(5)', True, lambda c, o: c.extend(5)),
        ('+= %r' % other, True, iadd),
        ('+= iter(%r)' % other.value, True, iadd_iterator),
        ('*= %r' % n, True, imul),
        ('+ %r' % other, False, lambda c, o: c + o(other)),
        ('%r +' % other.value, False, lambda c, o: other.value + c),
        ('* %r' % n, False, lambda c, o: c * n),
        ('%r *' % n, False, lambda c, o: n * c),
        ('pop()', True, lambda c, o: c.pop()),
        ('pop(%r)' % j, True, lambda c, o: c.pop(j)),
        ('remove(%r)' % (v,), True, lambda c, o: c.remove(v)),
        ('count(%r)' % (v,), False, lambda c, o: c.count(v)),
        ('index(%r)' % (v,), False, lambda c, o: c.index(v)),
        ('index(%r, %r)' % (v, j), False, lambda c, o: c.index(v, j)),
        ('index(%r, %r, %r)' % (v, j, k), False,
         lambda c, o: c.index(v, j, k)),
        ('reverse()', True, lambda c, o: c.reverse()),
        ('sort()', True, lambda c, o: c.sort(key=repr)),
        ('sort(reverse)', True, lambda c, o: c.sort(key=repr, reverse=True)),
        ('sort numbers', True, make_sortable),
        ('l[%r]' % j, False, lambda c, o: c[j]),
        ('l[%r]' % s, False, lambda c, o: c[s]),
        ('l[%r] = %r' % (j, v), True, set_item),
        ('l[%r] = %r' % (s, other), True, set_slice),
        ('l[%r] = %r' % (plain, other), True, set_plain_slice),
        ('del l[%r]' % j, True, del_item),
        ('del l[%r]' % s, True, del_slice),
        ('in %r' % (v,), False, lambda c, o: v in c),
        ('len', False, lambda c, o: len(c)),
        ('bool', False, lambda c, o: bool(c)),
        ('list()', False, lambda c, o: list(c)),
        ('reversed()', False, lambda c, o: list(reversed(c))),
        ('clear()', True, lambda c, o: c.clear()),
        ('%s %r' % (compare.__name__, other), False,
         lambda c, o: compare(c, o(other))),
        ('%r %s' % (other.value, compare.__name__), False,
         lambda c, o: compare(other.value, c)),
        ('== other type', False, lambda c, o: [c == 5, c != 5, c == None]),
        ("l['x']", False, lambda c, o: c['x']),
        ('sum', False, lambda c, o: len([x for x in c for y in c])),
    ])


# set

def set_item(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 'a', 'b', (1,), None])


def set_operand(rng, modes=('plain', 'persistent', 'self')):
    return Operand(set(set_item(rng) for _ in range(rng.randrange(6))),
                   rng.choice(modes))


def gen_set_op(rng):
    v = set_item(rng)
    if rng.random() < 0.04:
        v = []
    other = set_operand(rng)
    other2 = set_operand(rng)
    same = set_operand(rng, ('persistent', 'self'))
    frozen = Operand(frozenset(other.value), 'plain')
    listed = Operand([set_item(rng) for _ in range(rng.randrange(5))], 'plain')
    any_other = rng.choice([other, other, frozen, listed])
    binary = rng.choice([operator.or_, operator.and_, operator.sub,
                         operator.xor])
    inplace = rng.choice([operator.ior, operator.iand, operator.isub,
                          operator.ixor])
    compare = rng.choice([operator.lt, operator.le, operator.gt, operator.ge,
                          operator.eq, operator.ne])
    set_or_frozen = rng.choice([other, other, other, frozen])
    def bad_inplace(c, o):
        return inplace(c, 5)
    return rng.choice([
        ('add(%r)' % (v,), True, lambda c, o: c.add(v)),
        ('add(%r)' % (v,), True, lambda c, o: c.add(v)),
        ('remove(%r)' % (v,), True, lambda c, o: c.remove(v)),
        ('discard(%r)' % (v,), True, lambda c, o: c.discard(v)),
        ('clear()', True, lambda c, o: c.clear()),
        ('update(%r)' % any_other, True, lambda c, o: c.update(o(any_other))),
        ('update(%r, %r)' % (any_other, other2), True,
         lambda c, o: c.update(o(any_other), o(other2))),
        ('update()', True, lambda c, o: c.update()),
        ('%s %r' % (binary.__name__, set_or_frozen), False,
         lambda c, o: binary(c, o(set_or_frozen))),
        ('%r %s' % (other.value, binary.__name__), False,
         lambda c, o: binary(set(other.value), c)),
        ('frozenset %r %s' % (other.value, binary.__name__), False,
         lambda c, o: binary(frozenset(other.value), c)),
        ('%s %r' % (inplace.__name__, set_or_frozen), True,
         lambda c, o: inplace(c, o(set_or_frozen))),
        ('%s %r' % (inplace.__name__, set_or_frozen), True,
         lambda c, o: inplace(c, o(set_or_frozen))),
        ('%s 5' % inplace.__name__, True, bad_inplace),
        ('%s 5' % binary.__name__, False, lambda c, o: binary(c, 5)),
        ('union(%r)' % any_other, False, lambda c, o: c.union(o(any_other))),
        ('union(%r, %r)' % (any_other, other2), False,
         lambda c, o: c.union(o(any_other), o(other2))),
        ('intersection(%r)' % any_other, False,
         lambda c, o: c.intersection(o(any_other))),
        ('intersection(%r, %r)' % (any_other, other2), False,
         lambda c, o: c.intersection(o(any_other), o(other2))),
        ('difference(%r)' % any_other, False,
         lambda c, o: c.difference(o(any_other))),
        ('symmetric_difference(%r)' % any_other, False,
         lambda c, o: c.symmetric_difference(o(any_other))),
        ('intersection_update(%r)' % any_other, True,
         lambda c, o: c.intersection_update(o(any_other))),
        ('intersection_update(%r, %r)' % (any_other, other2), True,
         lambda c, o: c.intersection_update(o(any_other), o(other2))),
        ('difference_update(%r)' % any_other, True,
         lambda c, o: c.difference_update(o(any_other))),
        ('symmetric_difference_update(%r)' % any_other, True,
         lambda c, o: c.symmetric_difference_update(o(any_other))),
        ('issubset(%r)' % any_other, False,
         lambda c, o: c.issubset(o(any_other))),
        ('issuperset(%r)' % any_other, False,
         lambda c, o: c.issuperset(o(any_other))),
        ('isdisjoint(%r)' % any_other, False,
         lambda c, o: c.isdisjoint(o(any_other))),
        ('%s %r' % (compare.__name__, same), False,
         lambda c, o: compare(c, o(same))),
        ('copy()', False, lambda c, o: c.copy()),
        ('in %r' % (v,), False, lambda c, o: v in c),
        ('len', False, lambda c, o: len(c)),
        ('bool', False, lambda c, o: bool(c)),
        ('set()', False, lambda c, o: set(c)),
        ('frozenset()', False, lambda c, o: frozenset(c)),
        ('pop on empty', True,
         lambda c, o: c.pop() if not c else None),
    ])


GEN_OP = {'pdict': gen_dict_op, 'plist': gen_list_op, 'pset': gen_set_op}
