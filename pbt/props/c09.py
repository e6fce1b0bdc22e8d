"""C09: constant databases follow the published cdb format."""
import os
import struct

from lib import Group, Violation, ensure, expect_raises, same, scratch
from hypothesis import strategies as st

# -- the format, from <https://cr.yp.to/cdb/cdb.txt> ------------------------


def spec_hash(key):
    h = 5381
    for c in key:
        h = (((h << 5) + h) ^ c) & 0xffffffff
    return h


class SpecReader:

    def __init__(self, data):
        ensure(len(data) >= 2048, 'the file has only {} bytes', len(data))
        self.data = data
        self.tables = [struct.unpack_from('<LL', data, 8 * i)
                       for i in range(256)]
        self.end = min(pos for pos, _n in self.tables)
        self.used = 0

    def records(self):
        pos = 2048
        while pos < self.end:
            k, v = struct.unpack_from('<LL', self.data, pos)
            ensure(pos + 8 + k + v <= self.end, 'record at {} overruns', pos)
            yield (pos, self.data[pos + 8:pos + 8 + k],
                   self.data[pos + 8 + k:pos + 8 + k + v])
            pos += 8 + k + v
        same(pos, self.end, 'end of the records')

    def find(self, key):
        h = spec_hash(key)
        pos, n = self.tables[h % 256]
        result = []
        if n == 0:
            return result
        slot = (h >> 8) % n
        for _ in range(n):
            at = pos + 8 * slot
            ensure(at + 8 <= len(self.data), 'slot {} out of the file', at)
            sh, sp = struct.unpack_from('<LL', self.data, at)
            if sp == 0:
                return result
            if sh == h:
                k, v = struct.unpack_from('<LL', self.data, sp)
                if self.data[sp + 8:sp + 8 + k] == key:
                    result.append(self.data[sp + 8 + k:sp + 8 + k + v])
            slot = (slot + 1) % n
        return result


def spec_write(items, slots):
    """A valid database whose tables have `slots` times as many slots as
    records."""
    body, pos, tables = [], 2048, {}
    for k, v in items:
        h = spec_hash(k)
        tables.setdefault(h % 256, []).append((h, pos))
        record = struct.pack('<LL', len(k), len(v)) + k + v
        body.append(record)
        pos += len(record)
    head, tail = [], []
    for i in range(256):
        entries = tables.get(i, [])
        n = len(entries) * slots
        table = [(0, 0)] * n
        for h, p in entries:
            s = (h >> 8) % n
            while table[s][1]:
                s = (s + 1) % n
            table[s] = (h, p)
        head.append(struct.pack('<LL', pos, n))
        for entry in table:
            tail.append(struct.pack('<LL', *entry))
            pos += 8
    return b''.join(head + body + tail)


def as_bytes(x):
    return x if isinstance(x, bytes) else x.encode('utf-8')


def grouped(items):
    result = {}
    for k, v in items:
        result.setdefault(k, []).append(v)
    return result


def read_all(db, items, absent, how):
    """Compares what the database under test finds with the items."""
    same(list(db.items()), items, how + ': items')
    same(list(db.iteritems()), items, how + ': iteritems')
    same(list(db), items, how + ': iteration')
    same(list(db.keys()), [k for k, _v in items], how + ': keys')
    same(list(db.iterkeys()), [k for k, _v in items], how + ': iterkeys')
    same(list(db.values()), [v for _k, v in items], how + ': values')
    same(list(db.itervalues()), [v for _k, v in items], how + ': itervalues')
    for key, values in sorted(grouped(items).items()):
        same(db.get(key), values[0], how + ': get(%r)' % key)
        same(db[key], values[0], how + ': [%r]' % key)
        db.findstart()
        for i, v in enumerate(values):
            same(db.findnext(key), v, how + ': value %d of %r' % (i, key))
        expect_raises(KeyError, db.findnext, key)
        try:
            text = key.decode('utf-8')
        except ValueError:
            pass
        else:
            same(db.get(text), values[0], how + ': get(%r)' % text)
    for key in absent:
        if key not in [k for k, _v in items]:
            same(db.get(key), None, how + ': get(%r)' % key)
            same(db.get(key, 42), 42, how + ': get(%r, 42)' % key)
            expect_raises(KeyError, db.__getitem__, key)


def check(case):
    from sbclassifier.cdb import Cdb, cdb_make
    given = [(k, v) for k, v in case['items']]
    items = [(as_bytes(k), as_bytes(v)) for k, v in given]
    absent = [as_bytes(k) for k in case['absent']]
    labels = set()
    with scratch() as directory:
        path = os.path.join(directory, 'x.cdb')
        with open(path, 'wb') as f:
            cdb_make(f, (pair for pair in given) if case['lazy'] else given)
        with open(path, 'rb') as f:
            data = f.read()
        spec = SpecReader(data)
        same([(k, v) for _p, k, v in spec.records()], items,
             'records of the file')
        for key, values in grouped(items).items():
            same(spec.find(key), values,
                 'values of %r found by another reader' % key)
        for key in absent:
            if key not in [k for k, _v in items]:
                same(spec.find(key), [], 'values of an absent key')
        with open(path, 'rb') as f:
            db = Cdb(f)
            read_all(db, items, absent, 'own file')
            db.close()
        # A file written by somebody else.
        with open(path, 'wb') as f:
            f.write(spec_write(items, case['slots']))
        with open(path, 'rb') as f:
            db = Cdb(f)
            read_all(db, items, absent, 'other file')
            db.close()
    keys = [k for k, _v in items]
    if len(set(keys)) < len(keys):
        labels.add('repeated key')
    tables = {}
    for k in set(keys):
        tables.setdefault(spec_hash(k) % 256, []).append(k)
    if any(len(t) > 1 for t in tables.values()):
        labels.add('shared table')
    hashes = [spec_hash(k) for k in set(keys)]
    if len(set(hashes)) < len(hashes):
        labels.add('equal hash')
    if len(hashes) - len(set(hashes)) > 8:
        labels.add('crowded')
    if len(keys) < 1000 and any(
            key != other and other.startswith(key)
            and spec_hash(key) == spec_hash(other)
            for key in set(keys) for other in set(keys)):
        labels.add('equal hash of a prefix')
    if items:
        labels.add('items')
    return labels


def check_interleaved(case):
    """Iterators and lookups of two databases, in turns."""
    from sbclassifier.cdb import Cdb, cdb_make
    labels = set()
    with scratch() as directory:
        dbs, lists, files = [], [], []
        try:
            for i, given in enumerate(case['databases']):
                items = [(as_bytes(k), as_bytes(v)) for k, v in given]
                path = os.path.join(directory, '%d.cdb' % i)
                with open(path, 'wb') as f:
                    if case['own']:
                        cdb_make(f, given)
                    else:
                        f.write(spec_write(items, 2))
                files.append(open(path, 'rb'))
                dbs.append(Cdb(files[-1]))
                lists.append(items)
            iterators = []
            # The key that is looked for in each, and its further values.
            current = [None] * len(dbs)
            for kind, which, n in case['ops']:
                which %= len(dbs)
                db, items = dbs[which], lists[which]
                key = items[n % len(items)][0] if items else b'none'
                values = [v for k, v in items if k == key]
                if kind == 'iterate':
                    how = n % 3
                    iterators.append((
                        iter([db, db.iterkeys(), db.itervalues()][how]),
                        iter([items, [k for k, _v in items],
                              [v for _k, v in items]][how])))
                elif kind == 'next' and iterators:
                    got, expected = iterators[n % len(iterators)]
                    same(next(got, 'end'), next(expected, 'end'),
                         'next of an iterator')
                    labels.add('next')
                elif kind in ('get', 'item'):
                    got = db.get(key) if kind == 'get' or not values else db[key]
                    same(got, values[0] if values else None, kind)
                    current[which] = (key, values[1:]) if values else None
                elif kind == 'absent':
                    same(db.get(b'\0absent\0'), None, 'absent key')
                    current[which] = None
                elif kind == 'start':
                    db.findstart()
                    current[which] = key, values
                elif kind == 'findnext' and current[which]:
                    key, rest = current[which]
                    if rest:
                        same(db.findnext(key), rest[0], 'findnext')
                        labels.add('findnext')
                    else:
                        expect_raises(KeyError, db.findnext, key)
                    current[which] = key, rest[1:]
                elif kind == 'all':
                    same(db.items(), items, 'items')
                    same(db.keys(), [k for k, _v in items], 'keys')
        finally:
            for db in dbs:
                db.close()
            for f in files:
                f.close()
    return labels


def interleaved_strategy():
    pairs = equal_hashes()
    key = st.sampled_from([b'a', b'b', 'c', pairs[0][0], pairs[0][1], ''])
    op = st.tuples(st.sampled_from(['iterate', 'next', 'next', 'next', 'get',
                                    'item', 'absent', 'start', 'findnext',
                                    'findnext', 'all']),
                   st.integers(0, 1), st.integers(0, 11))
    return st.fixed_dictionaries(dict(
        own=st.booleans(), databases=st.lists(
            st.lists(st.tuples(key, st.binary(max_size=4)), max_size=9),
            min_size=1, max_size=2),
        ops=st.lists(op, min_size=4, max_size=25)))


def same_table():
    """Keys that are all in the table of b'x', many of them in one slot."""
    target = spec_hash(b'x') % 256
    result = []
    for a in range(256):
        for b in range(0, 256, 3):
            for key in (bytes([a, b]), bytes([b, 97, a]), bytes([97, a, 98, b])):
                if spec_hash(key) % 256 == target:
                    result.append(key)
    return result[:200]


def equal_hashes():
    """Pairs of different keys with the same hash."""
    result = []
    # h1 = ((a*33) ^ c) for the last two characters; solve by enumeration.
    for prefix in (b'', b'k', b'spam:'):
        seen = {}
        for a in range(256):
            for b in range(256):
                key = prefix + bytes([a, b])
                seen.setdefault(spec_hash(key), []).append(key)
        for keys in seen.values():
            if len(keys) > 1:
                result.append(keys[:3])
            if len(result) % 40 == 39:
                break
    return result


def crowd(blocks):
    """Many different keys with the same hash: as the hash is computed byte by
    byte, keys of equal hash may be continued with blocks that collide."""
    keys = [b'']
    for _ in range(blocks):
        seen = {}
        for a in range(97, 256):
            for b in range(97, 256):
                key = keys[0] + bytes([a, b])
                seen.setdefault(spec_hash(key), []).append(bytes([a, b]))
        ends = max(seen.values(), key=len)
        keys = [key + end for key in keys for end in ends[:6]]
    return keys


# Pairs of keys with the same hash, one of which is the start of the other.
PREFIXES = [
    [b'x', b'xghquhsp', b'xzxcfrly'], [b'a', b'ascstgrb', b'aizxgnpr'],
    [b'', b'lggybny', b'epjemqf'], [b'k1', b'k1wxiolmh', b'k1vgffnop'],
    [b'spam:', b'spam:wgnngre', b'spam:fwgekiq']]


def strategy():
    pairs = PREFIXES + equal_hashes()
    table = same_table()
    crowded = crowd(3)
    text = st.text(alphabet=st.characters(blacklist_categories=['Cs']),
                   max_size=5)
    key = st.one_of(
        text, st.binary(max_size=5), st.sampled_from(['a', 'b', '', 'x']),
        st.sampled_from(table),
        st.tuples(st.integers(0, len(pairs) - 1), st.integers(0, 2)).map(
            lambda t: pairs[t[0]][t[1] % len(pairs[t[0]])]),
        st.tuples(st.integers(0, 7), st.integers(0, 2)).map(
            lambda t: pairs[t[0]][t[1] % len(pairs[t[0]])]))
    value = st.one_of(text, st.binary(max_size=8),
                      st.sampled_from([b'', b'1,0', b'x' * 3000]))
    items = st.lists(st.tuples(key, value), max_size=14)
    # More keys that collide than there are bits in a byte, or in a word.
    many = st.lists(st.tuples(st.sampled_from(crowded + table), value),
                    min_size=15, max_size=60)
    return st.fixed_dictionaries(dict(
        items=st.one_of(*[items] * 15, many),
        absent=st.lists(key, max_size=4), lazy=st.booleans(),
        slots=st.integers(2, 4)))


def large():
    result = []
    for n in (300, 1500):
        result.append(dict(items=[['k%d' % (i % (n - 9)), '%d,%d' % (i, i * i)]
                                  for i in range(n)],
                           absent=['no', 'k%d' % n], lazy=True, slots=2))
    for n in (17, 33, 200):
        result.append(dict(items=[[key, b'%d' % i]
                                  for i, key in enumerate(crowd(3)[:n])],
                           absent=crowd(3)[n:n + 2], lazy=False, slots=2))
    # Thousands of keys in one table, which differ in the rest of the hash.
    keys = []
    for i in range(9002):
        key = b'%d:' % i
        keys.append(key + bytes([spec_hash(key) * 33 % 256 ^ 7]))
    result.append(dict(items=[[key, b'%d' % i]
                              for i, key in enumerate(keys[:9000])],
                       absent=keys[9000:], lazy=False, slots=2))
    # Long keys and values.
    for n in (255, 256, 2040, 65535, 65536, 1 << 20):
        result.append(dict(items=[[b'k' * n, b'v' * n], [b'k', b'w' * n],
                                  [b'k' * n, b''], [b'', b'u' * n]],
                           absent=['l' * n, b'k' * (n - 1)], lazy=True,
                           slots=2))
    return result


GROUPS = [
    Group('format', strategy, check, 1600, 60000, fixed=large,
          nontrivial=['repeated key', 'shared table'],
          rule='Lists of (key, value) pairs of str or bytes, with repeated '
               'keys, keys in one hash table and keys of equal hash; the '
               'file is read by an independent reader of the published '
               'format, and files of an independent writer are read back; '
               'non-trivial if a key is repeated or keys share a table.'),
    Group('interleaved', interleaved_strategy, check_interleaved, 800, 30000,
          nontrivial=['next', 'findnext'],
          rule='Several iterators and lookups of one or two databases, used '
               'in turns; non-trivial if an iterator or a lookup goes on '
               'after something else.'),
]
ASSUMPTIONS = ['str keys and values are stored as UTF-8']
