"""C24: expiry removes exactly the messages older than the limit."""
import datetime
import os
import time

import mail
from lib import Group, ensure, same, scratch, stand_in
from hypothesis import strategies as st
from props.c22 import Vanish


def check(case):
    from sbclassifier import Classifier
    from sbclassifier.corpora import ExpiryFileCorpus, message_removed
    from sbclassifier.message import from_bytes
    from sbclassifier.trainers import SpamTrainer
    labels = set()
    limit = case['limit']
    signals = []

    def removed(sender, message):
        signals.append(message.id())

    message_removed.connect(removed)
    try:
        with scratch() as directory:
            corpus = ExpiryFileCorpus(limit, directory, case['filter'],
                                      cache_size=case['cache'])
            classifier = Classifier()
            trainer = SpamTrainer(classifier, [corpus])
            files, subdirectories = {}, []
            now = time.time()
            if case['directory']:
                # Something else in the directory, that is older than any.
                path = os.path.join(directory, 'm')
                os.mkdir(path)
                subdirectories.append('m')
                with open(os.path.join(path, 'm1'), 'wb') as f:
                    f.write(b'Subject: x\n\nx\n')
                os.utime(os.path.join(path, 'm1'), (1000, 1000))
                os.utime(path, (1000, 1000))
            for i, (margin, matches, outside, data) in enumerate(
                    case['messages']):
                name = ('m%d' if matches else 'x%d') % i
                if case['filter'] == '*':
                    matches = True
                path = os.path.join(directory, name)
                if outside or not matches:
                    with open(path, 'wb') as f:
                        f.write(data)
                else:
                    corpus.add_message(from_bytes(data, name))
                # Ages at least 100 seconds away from the limit.
                age = limit + margin
                os.utime(path, (now, now - age))
                with open(path, 'rb') as f:
                    files[name] = (f.read(), matches and margin > 0, matches)
            trained = classifier.nspam, dict(
                (t, classifier._wordinfoget(t).spamcount)
                for t in classifier.wordinfo)
            if case['fresh']:
                corpus = ExpiryFileCorpus(limit, directory, case['filter'],
                                          cache_size=case['cache'])
            corpus.remove_expired_messages()
            corpus.remove_expired_messages()
            kept = sorted(n for n, (_d, old, _m) in files.items() if not old)
            same(sorted(os.listdir(directory)), sorted(kept + subdirectories),
                 'files kept')
            for name in subdirectories:
                same(os.listdir(os.path.join(directory, name)), ['m1'],
                     'directory in the directory')
            for name in kept:
                with open(os.path.join(directory, name), 'rb') as f:
                    same(f.read(), files[name][0], 'content of ' + name)
            same(sorted(corpus.keys()),
                 sorted(n for n in kept if files[n][2]), 'keys')
            for name, (data, old, matches) in files.items():
                if old:
                    same(corpus.get(name), None, 'expired message')
                elif matches:
                    same(corpus[name].as_bytes(),
                         from_bytes(data).as_bytes(), 'kept message')
            same((classifier.nspam, dict(
                (t, classifier._wordinfoget(t).spamcount)
                for t in classifier.wordinfo)), trained,
                'training after expiry')
            same(signals, [], 'messages announced as removed')
            if len(kept) < len(files):
                labels.add('expired')
                if kept:
                    labels.add('some expired')
            del trainer
    finally:
        message_removed.disconnect(removed)
    return labels


SLACK = 0.1


def check_schedule(case):
    """In real time, with a limit of a fraction of a second: nothing expires
    early, and whatever is old enough is removed by the next look."""
    from sbclassifier.corpora import ExpiryFileCorpus
    from sbclassifier.message import from_bytes
    labels = set()
    limit = case['limit']
    with scratch() as directory:
        corpus = ExpiryFileCorpus(limit, directory)
        # The corpus may have been looked at when it was empty.
        if case['look']:
            corpus.remove_expired_messages()
        added = {}
        if not case['look']:
            # Older messages, that are about to expire.
            for i, remaining in enumerate(case['old']):
                name = 'old%d' % i
                path = os.path.join(directory, name)
                corpus.add_message(from_bytes(b'Subject: x\n\nx\n', name))
                mtime = time.time() - limit + min(remaining, limit)
                os.utime(path, (mtime, mtime))
                added[name] = os.stat(path).st_mtime
        for i, (wait, number) in enumerate(case['steps']):
            time.sleep(wait)
            for j in range(number):
                name = 'm%d.%d' % (i, j)
                corpus.add_message(from_bytes(b'Subject: x\n\nx\n', name))
                added[name] = os.stat(os.path.join(directory, name)).st_mtime
            start = time.time()
            corpus.remove_expired_messages()
            end = time.time()
            present = set(os.listdir(directory))
            early = [n for n in added
                     if n not in present and added[n] + limit >= end]
            ensure(not early, 'expired too early: {}', early)
            late = [n for n in present if added[n] + limit + SLACK < start]
            ensure(not late, 'not expired in time: {}', late)
            same(sorted(corpus.keys()), sorted(present), 'keys')
            if set(added) - present:
                labels.add('expired')
                if present:
                    labels.add('some expired')
            added = {n: added[n] for n in present}
    return labels


def check_clock(case):
    """The same with a clock that is set by the test, to the second."""
    from sbclassifier.corpora import ExpiryFileCorpus
    from sbclassifier.message import from_bytes
    labels = set()
    limit, clock = case['limit'], [1000000000.0]

    def now():
        return clock[0]

    class Clock(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(now(), datetime.timezone.utc).replace(
                tzinfo=None)

    with scratch() as parent, stand_in(
            time, time=now, time_ns=lambda: int(now()) * 10 ** 9), stand_in(
                datetime, datetime=Clock):

        def create(name):
            os.utime(os.path.join(directory, name), (now(), now()))
            files[name] = now()

        # Corpora of two directories, with limits of their own.
        worlds = []
        for i, n in enumerate([limit, case['other']]):
            directory = os.path.join(parent, 'd%d' % i)
            os.mkdir(directory)
            worlds.append([directory, n, {}, ExpiryFileCorpus(
                n, directory, cache_size=case['cache'])])
        for i, (op, seconds, which) in enumerate(case['ops']):
            directory, limit, files, corpus = worlds[which]
            name = 'm%d' % i
            if which:
                labels.add('two')
            if op == 'add':
                corpus.add_message(from_bytes(b'Subject: x\n\nx\n', name))
                create(name)
            elif op == 'outside':
                with open(os.path.join(directory, name), 'wb') as f:
                    f.write(b'Subject: x\n\nx\n')
                create(name)
            elif op == 'wait':
                clock[0] += {'little': 1, 'half': limit // 2,
                             'almost': limit - 1, 'just': limit + 1,
                             'long': 3 * limit}.get(seconds, seconds)
            elif op == 'reopen':
                corpus = ExpiryFileCorpus(limit, directory,
                                          cache_size=case['cache'])
                worlds[which][3] = corpus
            elif op == 'deleted' and files:
                name = sorted(files)[i % len(files)]
                os.remove(os.path.join(directory, name))
                del files[name]
            elif op == 'removed' and files:
                name = sorted(files)[i % len(files)]
                corpus.remove_message(corpus[name])
                del files[name]
            elif op == 'again' and files:
                # Stored again, it is new.
                name = sorted(files)[i % len(files)]
                corpus.add_message(from_bytes(b'Subject: y\n\ny\n', name))
                create(name)
                labels.add('again')
            elif op == 'look':
                corpus.remove_expired_messages()
                # (When it is as old as the limit, either is right.)
                for name in sorted(files):
                    age = now() - files[name]
                    exists = os.path.exists(os.path.join(directory, name))
                    if age < limit:
                        ensure(exists, '{} of age {} expired', name, age)
                    elif age > limit:
                        ensure(not exists, '{} of age {} did not expire',
                               name, age)
                        labels.add('expired')
                    if not exists:
                        del files[name]
                if files and 'expired' in labels:
                    labels.add('some expired')
            for directory, limit, files, corpus in worlds:
                same(sorted(os.listdir(directory)), sorted(files), 'files')
                same(sorted(corpus.keys()), sorted(files), 'keys')
    return labels


def clock_strategy():
    op = st.tuples(
        st.sampled_from(['add', 'add', 'add', 'outside', 'wait', 'wait',
                         'wait', 'look', 'look', 'look', 'look', 'reopen',
                         'deleted', 'removed', 'again']),
        st.sampled_from(['little', 'half', 'half', 'almost', 'almost', 'just',
                         'just', 'long', 10, 300]),
        st.sampled_from([0, 0, 0, 1]))
    return st.fixed_dictionaries(dict(
        limit=st.sampled_from([10, 300, 86400]),
        other=st.sampled_from([10, 400]), cache=st.integers(1, 3),
        ops=st.lists(op, min_size=6, max_size=30)))


def check_many(case):
    """More messages than a corpus keeps in memory."""
    from sbclassifier.corpora import ExpiryFileCorpus
    from sbclassifier.message import from_bytes
    with scratch() as directory:
        corpus = ExpiryFileCorpus(300, directory)
        now, kept = time.time(), []
        for i in range(case['number']):
            corpus.add_message(from_bytes(b'Subject: x\n\nx\n', '%d' % i))
            age = 1000 if i % case['step'] else 0
            path = os.path.join(directory, '%d' % i)
            os.utime(path, (now - age, now - age))
            if not age:
                kept.append('%d' % i)
        if case['fresh']:
            corpus = ExpiryFileCorpus(300, directory)
        corpus.remove_expired_messages()
        same(sorted(os.listdir(directory)), sorted(kept), 'files of many')
        same(sorted(corpus.keys()), sorted(kept), 'keys of many')
        for name in kept:
            same(corpus[name].as_bytes(), b'Subject: x\n\nx\n', 'message')
    return {'many'} if case['number'] > 256 else set()


def many_strategy():
    return st.fixed_dictionaries(dict(
        number=st.sampled_from([30, 257, 300, 600, 1100]),
        step=st.sampled_from([2, 3, 50, 300]), fresh=st.booleans()))


def check_vanishing(case):
    """A message is deleted by somebody else while expired ones are removed."""
    from sbclassifier.corpora import ExpiryFileCorpus
    from sbclassifier.message import from_bytes
    labels = set()
    for n in range(1, 60):
        with scratch() as directory:
            corpus = ExpiryFileCorpus(300, directory, cache_size=case['cache'])
            old, new = set(), set()
            now = time.time()
            for i, age in enumerate(case['ages']):
                name = 'm%d' % i
                corpus.add_message(from_bytes(b'Subject: x\n\nx\n', name))
                os.utime(os.path.join(directory, name), (now - age, now - age))
                (old if age > 300 else new).add(name)
            name = 'm%d' % (case['gone'] % len(case['ages']))
            if case['reopen']:
                corpus = ExpiryFileCorpus(300, directory,
                                          cache_size=case['cache'])
            with Vanish(directory, name, n) as vanish:
                corpus.remove_expired_messages()
            if vanish.count < n:
                break
            same(sorted(os.listdir(directory)), sorted(new - {name}),
                 'files when %s vanishes at the %d. look' % (name, n))
            same(sorted(corpus.keys()), sorted(new - {name}), 'keys')
            labels.add('vanished')
    return labels


def vanishing_strategy():
    return st.fixed_dictionaries(dict(
        cache=st.integers(1, 3), gone=st.integers(0, 3), reopen=st.booleans(),
        ages=st.lists(st.sampled_from([0, 100, 1000, 5000]), min_size=1,
                      max_size=4)))


def strategy():
    message = st.tuples(
        st.sampled_from([-100000, -5000, -200, 200, 5000, 100000]),
        st.booleans(), st.booleans(), mail.simple_messages(4))
    return st.fixed_dictionaries(dict(
        limit=st.sampled_from([300, 3600, 86400, 604800]),
        filter=st.sampled_from(['*', 'm*']), cache=st.integers(1, 3),
        fresh=st.booleans(), directory=st.booleans(), messages=st.lists(message, max_size=6)))


def schedule_strategy():
    step = st.tuples(st.sampled_from([0.0, 0.02, 0.15, 0.3]),
                     st.integers(0, 2))
    return st.fixed_dictionaries(dict(
        limit=st.sampled_from([0.1, 0.25, 100, 86400]),
        look=st.sampled_from([False, False, True]),
        old=st.lists(st.sampled_from([-1, 0.1, 0.2, 0.4, 1000]), max_size=4),
        steps=st.lists(step, min_size=3, max_size=6)))


GROUPS = [
    Group('expiry', strategy, check, 1200, 40000,
          nontrivial=['some expired'],
          rule='Messages of ages on both sides of the limit, added to the '
               'corpus or by somebody else, some not matching the filter; '
               'the directory, the corpus and a classifier trained by it are '
               'compared with the expectation; non-trivial if some but not '
               'all messages expire.'),
    Group('schedule', schedule_strategy, check_schedule, 48, 800,
          nontrivial=['expired'],
          rule='Messages arrive in a corpus and expired ones are looked for, '
               'over about a second with a limit of a fraction of it, '
               'or of messages that are almost too old; '
               'non-trivial if a message expires.'),
    Group('clock', clock_strategy, check_clock, 1600, 40000,
          nontrivial=['some expired'],
          rule='Histories of messages that arrive, are stored again, removed '
               'or deleted by somebody else, and of looking for expired ones, '
               'with a clock that the test sets; every message must be there '
               'as long as it is not too old, and no longer than until the '
               'next look; non-trivial if a message expires and another '
               'remains.'),
    Group('vanishing', vanishing_strategy, check_vanishing, 200, 6000,
          nontrivial=['vanished'],
          rule='A file is deleted by somebody else just before each time that '
               'the search for expired ones looks at the file system; '
               'non-trivial if that happens.'),
    Group('many', many_strategy, check_many, 8, 100, nontrivial=['many'],
          rule='Up to 1100 messages, of which some expire; non-trivial if '
               'there are more than the memory holds.'),
]
ASSUMPTIONS = ['the age of a message is that of its file']
