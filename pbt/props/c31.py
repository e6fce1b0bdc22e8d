"""C31: the options of the classifier change the scores as documented."""
from fractions import Fraction

import strat
from bayes import Model, check_score, check_state
from lib import Group, patched
from hypothesis import strategies as st

OPTIONS = {'prior': 'UNKNOWN_WORD_PROB', 'strength': 'UNKNOWN_WORD_STRENGTH',
           'min_distance': 'MINIMUM_PROB_STRENGTH',
           'max_clues': 'MAX_DISCRIMINATORS'}


def check(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import basic
    labels = set()
    model = Model(case['bigrams'])
    values = {}
    for option, value in case['options'].items():
        name = OPTIONS[option]
        if not hasattr(basic, name):
            continue
        if option == 'max_clues':
            values[name] = value
            model.max_clues = value
        else:
            values[name] = float(Fraction(value))
            setattr(model, option, Fraction(value))
    with patched(basic, **values):
        c = Classifier(use_bigrams=case['bigrams'])
        vocabulary = set()
        for tokens, is_spam, times in case['train']:
            for _ in range(times):
                c.learn(strat.as_iterable(tokens, case['how']), is_spam)
            model.learn(tokens, is_spam, times)
            vocabulary.update(model.clues_of(tokens))
        for tokens in case['probes']:
            score, clues = check_score(
                c, model, tokens, 'score with %r' % values,
                make=lambda x: strat.as_iterable(x, case['how']))
            if clues:
                labels.update(case['options'])
            if len(clues) == model.max_clues:
                labels.add('limited')
        check_state(c, model, vocabulary, 'training, once scored')
    return labels


def strategy():
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(['str', 'bytes']))
        vocab = draw(st.lists(st.text(alphabet='abcd\u00e9:', min_size=1,
                                      max_size=3),
                              min_size=2, max_size=10, unique=True))
        vocab = [v for v in vocab if not v.startswith('bi:')] or ['a']
        if kind == 'bytes':
            vocab = [v.encode('utf-8') for v in vocab]
        message = strat.messages(vocab, 9)
        train = st.tuples(message, st.booleans(),
                          st.sampled_from([1, 1, 2, 5]))
        options = draw(st.fixed_dictionaries({}, optional=dict(
            prior=st.sampled_from(['1/2', '2/5', '3/5', '9/10', '1/100',
                                   '51/100']),
            strength=st.sampled_from(['9/20', '1/1000', '1', '2/5', '50']),
            min_distance=st.sampled_from(['0', '1/1000', '1/5', '2/5', '9/20',
                                          '1/2']),
            max_clues=st.sampled_from([1, 2, 3, 5, 16, 150, 300]))))
        return dict(how=draw(strat.ordered_kinds), options=options,
                    bigrams=draw(st.booleans()),
                    train=draw(st.lists(train, max_size=6)),
                    probes=draw(st.lists(message, min_size=1, max_size=3)))
    return cases()


def check_many(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import basic
    model = Model(False)
    c = Classifier(use_bigrams=False)
    tokens = [['%s%d' % (chr(97 + i), k) for k in range(n)]
              for i, (n, _spam, _ham) in enumerate(case['kinds'])]
    for is_spam in True, False:
        for k in range(case['nspam' if is_spam else 'nham']):
            message = [t for i, (_n, spam, ham) in enumerate(case['kinds'])
                       if k < (spam if is_spam else ham) for t in tokens[i]]
            c.learn(message, is_spam)
            model.learn(message, is_spam)
    probe = [t for part in tokens for t in part]
    labels = set()
    for n in case['max_clues']:
        model.max_clues = n
        with patched(basic, MAX_DISCRIMINATORS=n):
            score, clues = check_score(c, model, probe,
                                       'score with at most %d clues' % n)
        if len(clues) > 300:
            labels.add('many')
        if not n:
            labels.add('none')
        if 1e-6 < score < 1 - 1e-6:
            labels.add('unsure')
    return labels


def strategy_many():
    # Each kind of token is in the same numbers of messages.
    kind = st.tuples(st.integers(1, 900), st.integers(0, 4),
                     st.integers(0, 4)).map(list)
    return st.fixed_dictionaries(dict(
        nspam=st.integers(1, 4), nham=st.integers(1, 4),
        kinds=st.lists(kind, min_size=1, max_size=4),
        max_clues=st.lists(st.sampled_from([0, 1, 150, 500, 1000, 1500, 3000]),
                           min_size=1, max_size=3, unique=True)))


GROUPS = [
    Group('many', strategy_many, check_many, 300, 10000, nontrivial=['many'],
          rule='Up to 3600 tokens of up to 4 strengths, and a maximum of 0 to '
               '3000 clues, compared with the model; non-trivial if more than '
               '300 clues are used.'),
    Group('options', strategy, check, 3000, 100000,
          nontrivial=sorted(OPTIONS),
          rule='A classifier (with or without bigrams) is trained, and scores '
               'messages with other values of the prior, its strength, the '
               'minimum strength and the maximum number of clues; compared '
               'with the model with the same options; non-trivial if an '
               'option is given and there is a clue.'),
]
ASSUMPTIONS = ['options are attributes of the module; one that does not exist '
               'is not tested',
               'a prior strictly between 0 and 1, of positive strength',
               'at most 3600 clues']
