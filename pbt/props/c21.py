"""C21: an in-memory corpus is a bounded first-in first-out dictionary."""
from lib import Group, ensure, expect_raises, same
from hypothesis import strategies as st

KEYS = ['a', 'b', 'c', 'd', 'e', '', 'x/y', '../z', 'caf\u00e9', '0']


class Model:
    """Entries in the order in which they were first added."""

    def __init__(self, limit):
        self.limit, self.entries = limit, []

    def find(self, key):
        for i, (k, _v) in enumerate(self.entries):
            if k == key:
                return i
        return None

    def put(self, key, value):
        i = self.find(key)
        if i is None:
            self.entries.append([key, value])
        else:
            self.entries[i][1] = value
        while self.limit is not None and len(self.entries) > self.limit:
            del self.entries[0]

    def pop(self, key):
        i = self.find(key)
        if i is None:
            return None
        return self.entries.pop(i)[1]


def compare(corpus, model, what):
    same(len(corpus), len(model.entries), what + ': len')
    items = dict(corpus.items())
    same(len(list(corpus.items())), len(model.entries), what + ': items')
    same(sorted(corpus.keys()), sorted(k for k, _v in model.entries),
         what + ': keys')
    same(sorted(corpus), sorted(k for k, _v in model.entries),
         what + ': iteration')
    same(sorted(map(id, corpus.values())),
         sorted(id(v) for _k, v in model.entries), what + ': values')
    for k, v in model.entries:
        ensure(corpus[k] is v, what + ': another message at {}', k)
        ensure(corpus.get(k) is v, what + ': another message got for {}', k)
        ensure(items[k] is v, what + ': another item at {}', k)
        ensure(k in corpus, what + ': {} is not in the corpus', k)
    for k in KEYS:
        if model.find(k) is None:
            ensure(k not in corpus, what + ': {} is in the corpus', k)
            expect_raises(KeyError, corpus.__getitem__, k)
            same(corpus.get(k), None, what + ': get')
            same(corpus.get(k, 7), 7, what + ': get with a default')


def check(case):
    from sbclassifier.corpora import Corpus, message_added, message_removed
    from sbclassifier.corpora.caches import NaiveCache
    from sbclassifier.message import from_bytes
    labels = set()
    corpora, models = [], []
    for limit in case['limits']:
        if limit is None:
            corpora.append(Corpus())
        else:
            corpora.append(Corpus(NaiveCache(max_size=limit)))
        models.append(Model(limit))
    seen, expected = [], []

    def added(sender, message):
        seen.append(('added', id(sender), id(message)))

    def removed(sender, message):
        seen.append(('removed', id(sender), id(message)))

    keep = []
    message_added.connect(added)
    message_removed.connect(removed)
    try:
        for op in case['ops']:
            n = op['corpus'] % len(corpora)
            corpus, model = corpora[n], models[n]
            key, emit = op['key'], op['emit']
            if op['op'] == 'add':
                # (One without header is a message, too.)
                m = from_bytes(b'Subject: %d\n\nx\n' % len(keep)
                               if op['pick'] else b'\nno header\n')
                if op['explicit']:
                    same(corpus.add_message(m, message_id=key,
                                            emit_signal=emit), None, 'add')
                elif key:
                    m.set_id(key)
                    corpus.add_message(m, emit_signal=emit)
                else:
                    continue
                keep.append(m)
                if model.find(key) is not None:
                    labels.add('replaced')
                before = len(model.entries)
                model.put(key, m)
                if len(model.entries) == before and 'replaced' not in labels:
                    labels.add('evicted')
                if emit:
                    expected.append(('added', id(corpus), id(m)))
            elif op['op'] == 'remove':
                if op['explicit'] and model.entries:
                    key, m = model.entries[op['pick'] % len(model.entries)]
                    if m.id() != key:
                        continue
                else:
                    m = from_bytes(b'Subject: other\n\nx\n')
                    if not key:
                        continue
                    m.set_id(key)
                    keep.append(m)
                if model.pop(key) is not None:
                    labels.add('removed')
                corpus.remove_message(m, emit_signal=emit)
                if emit:
                    expected.append(('removed', id(corpus), id(m)))
            for c, m in zip(corpora, models):
                compare(c, m, 'after %s %r' % (op['op'], key))
            same(seen, expected, 'signals')
    finally:
        message_added.disconnect(added)
        message_removed.disconnect(removed)
    return labels


def check_many(case):
    """Thousands of messages."""
    from sbclassifier.corpora import Corpus
    from sbclassifier.corpora.caches import NaiveCache
    from sbclassifier.message import from_bytes
    limit = case['limit']
    corpus = Corpus(NaiveCache(max_size=limit)) if limit else Corpus()
    model = Model(limit)
    for i in range(case['number']):
        key = '%d' % (i * case['factor'] % case['modulus'])
        m = from_bytes(b'Subject: x\n\nx\n', key)
        corpus.add_message(m)
        model.put(key, m)
        if case['step'] and i % case['step'] == 0:
            k, m = model.entries[len(model.entries) // 2]
            corpus.remove_message(m)
            model.pop(k)
    compare(corpus, model, 'many')
    return {'many'} if len(model.entries) > 100 else set()


def many_strategy():
    return st.fixed_dictionaries(dict(
        number=st.sampled_from([257, 1010, 3000, 3000]),
        limit=st.sampled_from([None, None, 101, 256, 1000]),
        factor=st.sampled_from([1, 3, 997]),
        modulus=st.sampled_from([5000, 5000, 300, 120]),
        step=st.sampled_from([0, 1, 5, 40])))


def strategy():
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(['add', 'add', 'add', 'remove']),
        key=st.sampled_from(KEYS), corpus=st.integers(0, 1),
        emit=st.sampled_from([True, True, False]), explicit=st.booleans(),
        pick=st.integers(0, 9)))
    return st.fixed_dictionaries(dict(
        limits=st.lists(st.sampled_from([None, 1, 2, 3, 5]), min_size=1,
                        max_size=2),
        ops=st.lists(op, min_size=1, max_size=22)))


GROUPS = [
    Group('history', strategy, check, 3000, 100000,
          nontrivial=['evicted', 'removed', 'replaced'],
          rule='A history of adding (new and replaced) and removing messages '
               'in one or two corpora with different size limits; every '
               'observer of the corpus and the emitted signals are compared '
               'with the model; non-trivial if something is evicted, removed '
               'or replaced.'),
    Group('many', many_strategy, check_many, 40, 400, nontrivial=['many'],
          rule='Hundreds or thousands of messages are added, replaced and '
               'removed; non-trivial if more than 100 remain.'),
]
ASSUMPTIONS = ['the size limit is positive']
