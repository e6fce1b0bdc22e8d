"""C22: a directory corpus shows exactly the matching files of its directory."""
import contextlib
import gc
import os
import resource
import signal
import sys
import weakref

import mail
from lib import Group, ensure, expect_raises, same, scratch
from hypothesis import strategies as st

# (filter, names that match, names that do not)
FILTERS = [
    ('*', ['1', 'a', 'msg.eml', 'caf\u00e9', 'a b', '.hidden', '*', 'M.EML',
           'a ', ' a', 'a\n'],
     []),
    ('?', ['1', 'a', 'B', '*', '\u2603'], ['10', 'ab', 'msg.eml']),
    ('*.eml', ['1.eml', 'msg.eml', '.eml', 'a.b.eml'],
     ['1', 'eml', 'x.EML', 'x.eml.bak']),
    ('[ab]*', ['a', 'abc', 'b.eml', 'b'], ['c', 'A', 'cab', '[ab]*']),
]


def snapshot(directory):
    result = {}
    for name in os.listdir(directory):
        path = os.path.join(directory, name)
        if os.path.isfile(path):
            with open(path, 'rb') as f:
                result[name] = f.read()
        else:
            result[name] = None
    return result


def compare(corpus, expected, names, what):
    """`expected` maps the names to the content."""
    keys = sorted(expected)
    same(sorted(corpus.keys()), keys, what + ': keys')
    same(sorted(corpus), keys, what + ': iteration')
    same(len(corpus), len(keys), what + ': len')
    for text in (repr(corpus), str(corpus)):
        ensure('%d message' % len(keys) in text,
               what + ': represented as {}', text)
    items = list(corpus.items())
    same(sorted(k for k, _m in items), keys, what + ': items')
    for k, m in items:
        same(m.id(), k, what + ': id of an item')
        same(m.as_bytes(), expected[k], what + ': item %r' % k)
    same(sorted((m.id(), m.as_bytes()) for m in corpus.values()),
         sorted(expected.items()), what + ': values')
    for name in names:
        if name in expected:
            ensure(name in corpus, what + ': {} is not in the corpus', name)
            m = corpus[name]
            same(m.id(), name, what + ': id')
            same(m.as_bytes(), expected[name], what + ': message %r' % name)
            same(corpus.get(name).as_bytes(), expected[name],
                 what + ': get(%r)' % name)
        else:
            ensure(name not in corpus, what + ': {} is in the corpus', name)
            expect_raises(KeyError, corpus.__getitem__, name)
            same(corpus.get(name), None, what + ': get')
            same(corpus.get(name, 7), 7, what + ': get with a default')


@contextlib.contextmanager
def limited(size):
    """No file can have more bytes, as if the disk were full."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, handler)


def check(case):
    from sbclassifier.corpora import (FileCorpus, message_added,
                                      message_removed)
    from sbclassifier.message import from_bytes, from_string
    namefilter, matching, others = FILTERS[case['filter']]
    names = matching + others
    labels = set()
    seen, wanted = [], []

    def added(sender, message):
        seen.append(('added', id(sender), message.id()))

    def removed(sender, message):
        seen.append(('removed', id(sender), message.id()))

    with scratch() as directory:
        # What the directory must contain: name -> bytes (None: a directory).
        files = {}
        corpus = FileCorpus(directory, namefilter, case['cache'])
        added_here = 0
        message_added.connect(added)
        message_removed.connect(removed)
        try:
            for op in case['ops']:
                name = names[op['name'] % len(names)]
                kind = op['op']
                if kind == 'add':
                    if files.get(name, b'') is None:
                        continue
                    m = from_bytes(op['message'])
                    if op['explicit']:
                        arguments = dict(message_id=name)
                        if op['emit']:
                            m.set_id(name)
                    else:
                        m.set_id(name)
                        arguments = {}
                    if name in matching:
                        corpus.add_message(m, emit_signal=op['emit'],
                                           **arguments)
                        files[name] = m.as_bytes()
                        if op['emit']:
                            wanted.append(('added', id(corpus), name))
                        # A message that was read is the message of the file.
                        if m.id() is None:
                            corpus = FileCorpus(directory, namefilter,
                                                op['cache'])
                        added_here += 1
                        if added_here > case['cache']:
                            labels.add('evicted')
                    else:
                        expect_raises(ValueError, corpus.add_message, m,
                                      emit_signal=op['emit'], **arguments)
                        labels.add('rejected')
                elif kind == 'broken':
                    # A message that cannot be written: as_bytes() fails.
                    if files.get(name, b'') is None:
                        continue
                    m = from_string('Subject: x\n\n\u2603\n', name)
                    expect_raises(Exception, m.as_bytes)
                    expect_raises(ValueError, corpus.add_message, m,
                                  emit_signal=op['emit'])
                    labels.add('broken')
                elif kind == 'full':
                    # There is no space for the whole message.
                    if files.get(name, b'') is None or name not in matching:
                        continue
                    m = from_bytes(op['message'] + b'x' * 60, name)
                    with limited(op['cache'] * 20):
                        expect_raises(OSError, corpus.add_message, m,
                                      emit_signal=op['emit'])
                    if name in files:
                        # Which of the two is left is not specified.
                        path = os.path.join(directory, name)
                        if os.path.exists(path):
                            with open(path, 'rb') as f:
                                same(f.read(), files[name],
                                     'the file that was there before')
                        else:
                            del files[name]
                    labels.add('full')
                elif kind == 'remove':
                    if files.get(name, b'') is None:
                        continue
                    m = corpus.get(name) if op['explicit'] else None
                    if m is None:
                        m = from_bytes(op['message'], name)
                    corpus.remove_message(m, emit_signal=op['emit'])
                    if op['emit']:
                        wanted.append(('removed', id(corpus), name))
                    if name in matching and name in files:
                        del files[name]
                        labels.add('removed')
                elif kind == 'outside':
                    # Somebody else adds a file, or a directory.
                    if name in files:
                        continue
                    path = os.path.join(directory, name)
                    if op['explicit'] and not op['emit']:
                        os.mkdir(path)
                        files[name] = None
                    else:
                        with open(path, 'wb') as f:
                            f.write(op['message'])
                        files[name] = op['message']
                        labels.add('outside')
                elif kind == 'deleted':
                    # Somebody else deletes a file.
                    if files.get(name) is None:
                        continue
                    os.remove(os.path.join(directory, name))
                    del files[name]
                    if op['explicit'] and not op['emit']:
                        # There is a directory of that name instead.
                        os.mkdir(os.path.join(directory, name))
                        files[name] = None
                    labels.add('deleted')
                elif kind == 'reopen':
                    # In between, somebody else changes or deletes a file.
                    if files.get(name) is not None:
                        path = os.path.join(directory, name)
                        if op['explicit']:
                            os.remove(path)
                            del files[name]
                        elif op['emit']:
                            with open(path, 'wb') as f:
                                f.write(op['message'])
                            files[name] = op['message']
                    corpus = FileCorpus(directory, namefilter, op['cache'])
                    added_here = 0
                same(snapshot(directory), files, 'directory after %s %r'
                     % (kind, name))
                expected = {k: from_bytes(v).as_bytes()
                            for k, v in files.items()
                            if k in matching and v is not None}
                compare(corpus, expected, names, 'after %s %r' % (kind, name))
                same(seen, wanted, 'signals')
            same(snapshot(directory), files, 'directory at the end')
        finally:
            message_added.disconnect(added)
            message_removed.disconnect(removed)
    return labels


class Vanish:
    """Somebody else deletes a file just before the n-th time that the file
    system is asked about something in the directory."""

    current = []

    def __init__(self, directory, name, n):
        self.directory, self.path = directory, os.path.join(directory, name)
        self.n, self.count, self.active = n, 0, False
        self.stat = os.stat
        if not Vanish.current:
            # (A hook cannot be removed.)
            sys.addaudithook(lambda event, args: Vanish.current[0].hook(
                event, args))
        Vanish.current[:] = [self]

    def happens(self, path):
        if not self.active or not isinstance(path, str) or not (
                path.startswith(self.directory)):
            return
        self.count += 1
        if self.count == self.n:
            self.active = False
            with contextlib.suppress(FileNotFoundError):
                os.remove(self.path)
            self.active = True

    def hook(self, event, args):
        if self.active and event in ('open', 'os.listdir', 'os.scandir'):
            self.happens(args[0])

    def asked(self, path, *args, **kw):
        self.happens(path)
        return self.stat(path, *args, **kw)

    def __enter__(self):
        os.stat = self.asked
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False
        os.stat = self.stat


OBSERVERS = {
    'keys': lambda c, name: sorted(c.keys()),
    'iteration': lambda c, name: sorted(c),
    'values': lambda c, name: sorted((m.id(), m.as_bytes())
                                     for m in c.values()),
    'items': lambda c, name: sorted((k, m.as_bytes()) for k, m in c.items()),
    'len': lambda c, name: len(c), 'in': lambda c, name: name in c,
    'get': lambda c, name: content(c.get(name)),
    'item': lambda c, name: content(item(c, name)),
    'repr': lambda c, name: repr(c),
}


def content(message):
    return None if message is None else message.as_bytes()


def item(corpus, name):
    try:
        return corpus[name]
    except KeyError:
        return None


def check_vanishing(case):
    """Each observer shows the directory as it is with or without a file that
    is deleted at that very moment."""
    from sbclassifier.corpora import FileCorpus
    from sbclassifier.message import from_bytes
    labels = set()
    namefilter, matching, others = FILTERS[case['filter']]
    for n in range(1, 40):
        with scratch() as directory:
            corpus = FileCorpus(directory, namefilter, case['cache'])
            for i, data in case['messages']:
                corpus.add_message(from_bytes(data,
                                              matching[i % len(matching)]))
            present = sorted(os.listdir(directory))
            name = present[case['gone'] % len(present)]
            asked = present[case['asked'] % len(present)]
            if case['reopen']:
                corpus = FileCorpus(directory, namefilter, case['cache'])
            observe = OBSERVERS[case['observer']]
            before = observe(corpus, asked)
            with Vanish(directory, name, n) as vanish:
                got = observe(corpus, asked)
            if vanish.count < n:
                break
            after = observe(corpus, asked)
            what = '%s when %r vanishes at the %d. look: ' % (
                case['observer'], name, n)
            ensure(got == before or got == after or case['observer'] == 'repr',
                   what + '{} is neither {} nor {}', got, before, after)
            ensure(name not in corpus, what + 'it is still there')
            same(sorted(corpus.keys()),
                 [p for p in present if p != name], what + 'keys')
            labels.add('vanished')
    return labels


def vanishing_strategy():
    return st.fixed_dictionaries(dict(
        filter=st.integers(0, len(FILTERS) - 1), cache=st.integers(1, 4),
        messages=st.lists(st.tuples(st.integers(0, 11),
                                    mail.simple_messages(3)),
                          min_size=1, max_size=4),
        gone=st.integers(0, 3), asked=st.integers(0, 3),
        reopen=st.booleans(), observer=st.sampled_from(sorted(OBSERVERS))))


def check_many(case):
    """More files than a corpus keeps in memory, unless told otherwise."""
    from sbclassifier.corpora import FileCorpus
    from sbclassifier.message import from_bytes
    labels = set()
    with scratch() as directory:
        corpus = FileCorpus(directory, *case['arguments'])
        files = {}
        added = []

        def add(i):
            data = b'Subject: %d\n\n%d\n' % (i, i * case['factor'])
            if case['outside'] and i % case['outside'] == 0:
                with open(os.path.join(directory, '%d' % i), 'wb') as f:
                    f.write(data)
            else:
                message = from_bytes(data, '%d' % i)
                corpus.add_message(message)
                added.append(weakref.ref(message))
            files['%d' % i] = data

        def check_memory():
            if case['arguments']:
                gc.collect()
                kept = sum(1 for r in added if r() is not None)
                ensure(kept <= case['arguments'][1],
                       '{} messages are kept in memory instead of {}', kept,
                       case['arguments'][1])

        for i in range(case['number']):
            add(i)
        check_memory()
        compare(corpus, files, ['-1', '5000'] + sorted(files), 'many')
        for i in range(0, case['number'], case['step']):
            corpus.remove_message(corpus['%d' % i])
            del files['%d' % i]
        same(snapshot(directory), files, 'directory of many')
        compare(corpus, files, ['0'] + sorted(files), 'after removing many')
        for i in range(0, case['number'], 2 * case['step']):
            add(i)
        same(snapshot(directory), files, 'directory of many')
        compare(corpus, files, ['0', '1'] + sorted(files),
                'after adding again')
        check_memory()
        if case['number'] > 256:
            labels.add('many')
    return labels


def many_strategy():
    return st.fixed_dictionaries(dict(
        arguments=st.sampled_from([(), (), ('*', 300), ('*', 1),
                                   ('[0-9]*', 1000), ('*', 17)]),
        number=st.sampled_from([40, 256, 257, 258, 300, 520, 1100]),
        factor=st.integers(1, 9), outside=st.sampled_from([0, 1, 2, 7]),
        step=st.sampled_from([1, 2, 3, 50, 255])))


def strategy():
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(['add', 'add', 'add', 'remove', 'remove',
                            'outside', 'reopen', 'broken', 'deleted', 'full']),
        name=st.integers(0, 11), message=st.one_of(
            mail.simple_messages(5), mail.simple_messages(5),
            mail.simple_messages(5), st.just(b'\nno header\n')),
        emit=st.sampled_from([True, True, False]), explicit=st.booleans(),
        cache=st.integers(1, 3)))
    return st.fixed_dictionaries(dict(
        filter=st.integers(0, len(FILTERS) - 1), cache=st.integers(1, 4),
        ops=st.lists(op, min_size=1, max_size=14)))


GROUPS = [
    Group('history', strategy, check, 900, 30000,
          nontrivial=['evicted', 'removed', 'outside', 'broken', 'deleted', 'full'],
          rule='A history of adding, replacing and removing messages, of '
               'files created, changed and deleted by somebody else, and of '
               'reopening the corpus with another memory size; after each '
               'step the directory and every observer of the corpus are '
               'compared with a model; non-trivial if a message is evicted '
               'from memory, removed, deleted, comes from outside or cannot be '
               'stored (because of its text, or because the disk is full).'),
    Group('vanishing', vanishing_strategy, check_vanishing, 400, 10000,
          nontrivial=['vanished'],
          rule='A file is deleted by somebody else just before each time that '
               'an observer of the corpus looks at the file system; what it '
               'shows must be the corpus with or without the file; '
               'non-trivial if that happens.'),
    Group('many', many_strategy, check_many, 8, 120, nontrivial=['many'],
          rule='Up to 1100 files, with the default and other memory sizes; '
               'many are removed and some are added again; no more added '
               'messages stay in memory than are asked for; non-trivial if '
               'there are more than the default memory holds.'),
]
ASSUMPTIONS = ['files that one corpus object has read are not changed by '
               'others while it is open',
               'message identifiers are valid file names']
