"""C05: bigram training and the tiling of a message with bigrams."""
import random

import strat
from bayes import Model, check_score, check_state
from lib import Group, same
from hypothesis import strategies as st


def check(case):
    from sbclassifier import Classifier
    c = Classifier(use_bigrams=True)
    model = Model(bigrams=True)
    plain = Model()
    vocabulary = set()
    for tokens, is_spam, times in case['train']:
        for _ in range(times):
            c.learn(strat.as_iterable(tokens, case['how']), is_spam)
        model.learn(tokens, is_spam, times)
        plain.learn(tokens, is_spam, times)
        vocabulary.update(model.clues_of(tokens))
    check_state(c, model, vocabulary, 'after training')
    same(set(c.wordinfo), set(model.counts), 'known unigrams and bigrams')
    labels = set()
    for tokens in case['probes']:
        score, clues = check_score(
            c, model, tokens,
            make=lambda x: strat.as_iterable(x, case['how']))
        pairs = sum(1 for w, _p in clues if w not in tokens)
        if pairs:
            labels.add('bigram clue')
        if pairs and pairs < len(clues):
            labels.add('mixed clues')
        if len(clues) == 150:
            labels.add('150 clues')
    # Bigrams are trained only if they are asked for.
    d = Classifier()
    for tokens, is_spam, times in case['train']:
        for _ in range(times):
            d.learn(list(tokens), is_spam)
    same(set(d.wordinfo), set(plain.counts), 'tokens without bigrams')
    # Unlearning untrains the bigrams too.
    for tokens, is_spam, times in case['train']:
        for _ in range(times):
            c.unlearn(strat.as_iterable(tokens, case['how']), is_spam)
    same((c.nspam, c.nham, dict(c.wordinfo)), (0, 0, {}),
         'state after untraining everything')
    return labels


def strategy():
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(['str', 'bytes']))
        vocab = draw(st.lists(st.text(alphabet='abcd\u00e9:', min_size=1,
                                      max_size=3),
                              min_size=2, max_size=7, unique=True))
        vocab = [v for v in vocab if not v.startswith('bi:')] or ['a']
        if kind == 'bytes':
            vocab = [v.encode('utf-8') for v in vocab]
        message = strat.messages(vocab, 9)
        train = st.tuples(message, st.booleans(),
                          st.sampled_from([1, 1, 2, 5]))
        return dict(how=draw(strat.ordered_kinds),
                    train=draw(st.lists(train, max_size=6)),
                    probes=draw(st.lists(message, min_size=1, max_size=3)))
    return cases()


def long_cases():
    """Long messages, for which more than 150 clues qualify."""
    result = []
    for seed in range(24):
        r = random.Random(seed)
        n = r.choice([60, 140, 151, 200, 320])
        kind = seed % 2
        names = ['t%d' % i for i in range(n)]
        if kind:
            names = [x.encode() for x in names]
        train = []
        for _ in range(r.choice([2, 3, 6])):
            m = [r.choice(names) for _ in range(n)]
            train.append((m, r.random() < 0.5, r.choice([1, 2, 4])))
        probe = []
        while len(probe) < n:
            m = r.choice(train)[0]
            i = r.randrange(len(m))
            probe.extend(m[i:i + r.randrange(1, 6)])
        result.append(dict(how='generator', train=train,
                           probes=[probe, train[0][0]]))
    return result


GROUPS = [
    Group('tiling', strategy, check, 2500, 100000, fixed=long_cases,
          nontrivial=['bigram clue'],
          rule='A classifier with bigrams is trained and scores messages '
               'over a small vocabulary (and some long ones); counts are '
               'compared with the model, and the evidence must be the '
               'strongest-first non-overlapping choice of unigrams and '
               'bigrams, up to equally strong ones; non-trivial if a bigram '
               'is among the clues.'),
]
ASSUMPTIONS = ['no token of a message starts with "bi:"']
