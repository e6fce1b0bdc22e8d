"""C06: a pickled classifier is what it was when it was last stored."""
import pickle

import stores
import strat
from bayes import Model, check_score, check_state, same_score
from lib import Group, same
from hypothesis import strategies as st


def make(path):
    from sbclassifier.classifiers import PickleClassifier
    return PickleClassifier(path)


def check(case):
    return stores.run(case, make, revert=True)


def check_pickle(case):
    """A plain classifier can be pickled by its user."""
    from sbclassifier import Classifier
    c = Classifier(use_bigrams=case['bigrams'])
    model = Model(case['bigrams'])
    for tokens, is_spam in case['before']:
        c.learn(list(tokens), is_spam)
        model.learn(tokens, is_spam)
    c.spamprob(list(case['probe']))
    d = pickle.loads(pickle.dumps(c, case['protocol']))
    vocabulary = set(model.counts) | set(case['probe'])
    check_state(d, model, vocabulary, 'unpickled')
    same_score(d.spamprob(list(case['probe']), True),
               c.spamprob(list(case['probe']), True), 'score once unpickled')
    for tokens, is_spam in case['after']:
        d.learn(list(tokens), is_spam)
    check_state(c, model, vocabulary, 'the original, after training the copy')
    for tokens, is_spam in case['after']:
        model.learn(tokens, is_spam)
    check_state(d, model, vocabulary | set(model.counts), 'trained copy')
    check_score(d, model, case['probe'], 'score by the trained copy')
    labels = set()
    if case['before'] and case['after']:
        labels.add('bigrams' if case['bigrams'] else 'unigrams')
    return labels


def pickle_strategy():
    @st.composite
    def cases(draw):
        vocab = draw(st.lists(st.text('abc', min_size=1, max_size=3),
                              min_size=2, max_size=6, unique=True))
        if draw(st.booleans()):
            vocab = [v.encode() for v in vocab]
        message = st.tuples(strat.messages(vocab, 8), st.booleans())
        return dict(bigrams=draw(st.booleans()),
                    before=draw(st.lists(message, max_size=4)),
                    after=draw(st.lists(message, max_size=3)),
                    probe=draw(strat.messages(vocab, 8)),
                    protocol=draw(st.integers(2, 5)))
    return cases()


def check_large(case):
    return stores.check_large(case, make, revert=True)


GROUPS = [
    Group(
    'history', lambda: stores.histories(
        ['learn', 'learn', 'learn', 'unlearn', 'store', 'store', 'load', 'reopen',
         'second', 'other', 'gone', 'score', 'broken', 'huge'])(), check, 1200, 40000, nontrivial=['loaded'],
    rule='A history of learn, unlearn, score, store, load and reopen '
         'operations compared with a model of the current and of the '
         'stored state after each; non-trivial if a non-empty state '
         'was loaded.'),
    Group('pickle', pickle_strategy, check_pickle, 800, 30000,
          nontrivial=['bigrams', 'unigrams'],
          rule='A classifier with or without bigrams, pickled and unpickled '
               'between two trainings; non-trivial if both are non-empty.'),
    Group('large', lambda: stores.large([600, 5000, 30000, 70000]),
          check_large, 20, 2000, nontrivial=['loaded'],
          rule='A history of training, storing and loading with a '
               'vocabulary of thousands of tokens, all of whose counts are '
               'compared with a model; non-trivial if a non-empty state was '
               'loaded.'),
]
ASSUMPTIONS = []
