"""C07: a shelved classifier behaves like an in-memory one."""
import os

import stores
import strat
from bayes import Model, check_score, check_state, state_of
from lib import Group, ensure, expect_raises, same, scratch
from hypothesis import strategies as st


def make(path):
    from sbclassifier.classifiers import ShelveClassifier
    return ShelveClassifier(path)


def check(case):
    return stores.run(case, make, revert=False)


def check_abandoned(case):
    """A session that only learns and ends without storing leaves a database
    that can be used: no token is in more messages than were trained."""
    labels = set()
    with scratch() as directory:
        path = os.path.join(directory, 'bayes')
        vocabulary = case['vocabulary']
        model = Model()
        for session in case['sessions']:
            c = make(path)
            check = state_of(c, vocabulary)
            ensure(check[0] == model.nspam and check[1] == model.nham,
                   'trained messages after an unfinished session: {} instead '
                   'of {}', check[:2], (model.nspam, model.nham))
            for token, (spam, ham) in check[2].items():
                full = model.counts.get(token, [0, 0])
                ensure(0 <= spam <= full[0] and 0 <= ham <= full[1],
                       'counts of {} are {} after an unfinished session, but '
                       'only {} were trained', token, (spam, ham), full)
            p = c.spamprob(list(vocabulary))
            ensure(0 <= p <= 1, 'score {}', p)
            for tokens, is_spam in session['train']:
                c.learn(list(tokens), is_spam)
                model.learn(tokens, is_spam)
            if session['store']:
                # From here on, what is stored is what this session knows.
                c.store()
                stored = state_of(c, vocabulary)
                c.close()
                c = make(path)
                same(state_of(c, vocabulary), stored, 'state once stored')
            elif session['train']:
                labels.add('abandoned')
            c.close()
    return labels


def outcome(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return type(e).__name__


def check_reload(case):
    """Loading again is the same as closing and opening the database, whatever
    was not stored before."""
    labels = set()
    vocabulary = case['vocabulary']
    with scratch() as directory:
        paths = [os.path.join(directory, name) for name in ('one', 'two')]
        pair = [make(path) for path in paths]
        dirty = unlearned = False
        trained = []
        for kind, tokens, is_spam, index in case['ops']:
            if kind == 'unlearn' and trained:
                tokens, is_spam = trained[index % len(trained)]
            if kind in ('learn', 'unlearn'):
                results = [outcome(getattr(c, kind), list(tokens), is_spam)
                           for c in pair]
                same(results[0], results[1], kind)
                dirty = True
                if kind == 'learn':
                    trained.append((tokens, is_spam))
                else:
                    unlearned = True
            elif kind == 'store':
                for c in pair:
                    c.store()
                dirty = unlearned = False
            elif kind == 'score':
                same(outcome(pair[0].spamprob, list(tokens)),
                     outcome(pair[1].spamprob, list(tokens)), 'scores')
            else:
                pair[0].load()
                pair[1].close()
                pair[1] = make(paths[1])
                if dirty:
                    labels.add('dirty')
                if unlearned:
                    labels.add('unlearned')
                dirty = unlearned = False
            same(state_of(pair[0], vocabulary), state_of(pair[1], vocabulary),
                 'state after {}, of one loaded again and one reopened'.format(
                     kind))
        for c in pair:
            c.close()
    return labels


def reload_strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 4))
        op = st.tuples(
            st.sampled_from(['learn', 'learn', 'learn', 'unlearn', 'unlearn',
                             'store', 'load', 'load', 'score']),
            strat.messages(vocab, 4), st.booleans(), st.integers(0, 9))
        message = draw(strat.messages(vocab, 4))
        first = [('learn', message, True, 0), ('learn', message, False, 0),
                 ('store', [], True, 0)]
        return dict(vocabulary=vocab, ops=(
            first if draw(st.booleans()) else []) + draw(
                st.lists(op, min_size=3, max_size=14)))
    return cases()


def read_all(directory):
    result = {}
    for name in os.listdir(directory):
        with open(os.path.join(directory, name), 'rb') as f:
            result[name] = f.read()
    return result


def check_flags(case):
    """A database is opened read-only, for writing, or as a new one, as the
    documentation of shelve says."""
    from sbclassifier.classifiers import ShelveClassifier
    labels = set()
    vocabulary = case['vocabulary']
    with scratch() as directory:
        path = os.path.join(directory, 'bayes')
        model, exists = Model(), False
        for flag, train, load in case['sessions']:
            if not exists and flag in 'rw':
                expect_raises(Exception, ShelveClassifier, path, flag)
                same(os.listdir(directory), [], 'files that are not opened')
                labels.add('no database')
                continue
            c = (ShelveClassifier(path) if flag == 'default'
                 else ShelveClassifier(path, flag))
            exists = True
            if flag == 'n':
                model = Model()
            before = read_all(directory) if flag == 'r' else None
            what = 'opened with ' + flag
            check_state(c, model, vocabulary, what)
            check_score(c, model, vocabulary, what + ': score')
            if flag == 'r':
                if load:
                    c.load()
                    check_state(c, model, vocabulary, what + ' and loaded')
                    check_score(c, model, vocabulary, what + ': score again')
                c.close()
                same(read_all(directory), before, 'files ' + what)
                labels.add('read-only')
                continue
            for tokens, is_spam in train:
                c.learn(list(tokens), is_spam)
                model.learn(tokens, is_spam)
            c.store()
            if load:
                c.load()
                check_state(c, model, vocabulary, what + ', stored and loaded')
                for tokens, is_spam in train:
                    c.learn(list(tokens), is_spam)
                    model.learn(tokens, is_spam)
                c.store()
            check_state(c, model, vocabulary, what + ', at the end')
            check_score(c, model, vocabulary, what + ': score at the end')
            c.close()
            labels.add(flag)
    return labels


def flags_strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 5))
        message = st.tuples(strat.messages(vocab, 6), st.booleans())
        session = st.tuples(
            st.sampled_from(['default', 'c', 'w', 'r', 'r', 'n']),
            st.lists(message, max_size=3), st.booleans())
        return dict(vocabulary=vocab,
                    sessions=draw(st.lists(session, max_size=6)))
    return cases()


def abandoned_strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 5))
        message = st.tuples(strat.messages(vocab, 6), st.booleans())
        session = st.fixed_dictionaries(dict(
            train=st.lists(message, max_size=4),
            store=st.sampled_from([False, False, True])))
        return dict(vocabulary=vocab,
                    sessions=draw(st.lists(session, min_size=2, max_size=4)))
    return cases()


def check_large(case):
    return stores.check_large(case, make, revert=False)


GROUPS = [
    Group('history', lambda: stores.histories(
        ['learn', 'learn', 'learn', 'unlearn', 'unlearn', 'store', 'load',
         'reopen', 'second', 'other', 'score', 'broken', 'huge'])(), check, 900, 30000,
          nontrivial=['loaded'],
          rule='A history of learn, unlearn, score, store, load and reopen '
               'operations compared with an in-memory model after each; '
               'loading is preceded by storing; non-trivial if a non-empty '
               'state was loaded.'),
    Group('abandoned', abandoned_strategy, check_abandoned, 500, 15000,
          nontrivial=['abandoned'],
          rule='Sessions that only learn, some of which end without storing; '
               'non-trivial if one of those learned something.'),
    Group('reload', reload_strategy, check_reload, 500, 15000,
          nontrivial=['dirty'],
          rule='Histories of learn, unlearn, score, store and load on two '
               'databases, one of which is closed and opened instead of '
               'loaded; non-trivial if something was not stored when it was '
               'loaded.'),
    Group('flags', flags_strategy, check_flags, 500, 15000,
          nontrivial=['read-only', 'n', 'w'],
          rule='Sessions that open the database with each of the flags of '
               'shelve, train, store and load again; non-trivial if one '
               'opens it read-only, for writing only, or as a new one.'),
    Group('large', lambda: stores.large([600, 2500, 10000]),
          check_large, 30, 2000, nontrivial=['loaded'],
          rule='A history of training, storing and loading with a '
               'vocabulary of thousands of tokens, all of whose counts are '
               'compared with a model; non-trivial if a non-empty state was '
               'loaded.'),
]
ASSUMPTIONS = ['a database holds either str or bytes tokens',
               'no surrogates in str tokens']
