"""C02: unlearning undoes learning, and the order of training is irrelevant."""
import random

import strat
from bayes import Model, check_state, same_score, state_of
from lib import Group, expect_raises, same
from hypothesis import strategies as st


def scores(c, probes):
    return [c.spamprob(list(p), True) for p in probes]


def same_scores(actual, expected, what):
    for a, e in zip(actual, expected):
        same_score(a, e, what)


def check(case):
    from sbclassifier import Classifier
    bigrams = case['bigrams']
    size = case.get('size', 1)
    base, extra = ([(strat.enlarge(m, size), is_spam) for m, is_spam in ms]
                   for ms in (case['base'], case['extra']))
    probes = [strat.enlarge(p, size) for p in case['probes']]
    c = Classifier(use_bigrams=bigrams)
    model = Model(bigrams)
    for tokens, is_spam in base:
        c.learn(strat.as_iterable(tokens, case['how']), is_spam)
        model.learn(tokens, is_spam)
    vocabulary = set(t for m, _s in base + extra for t in model.clues_of(m))
    vocabulary.update(t for p in probes for t in model.clues_of(p))
    check_state(c, model, vocabulary, 'after training')
    before = scores(c, probes)
    # What no message is trained as is not unlearned.
    labels = set()
    for is_spam in (True, False):
        if not any(s == is_spam for _t, s in base):
            for tokens in [[]] + probes + [m for m, _s in base]:
                expect_raises(ValueError, c.unlearn, strat.as_iterable(
                    tokens, case['how']), is_spam)
                check_state(c, model, vocabulary, 'after a refusal')
            same(set(c.wordinfo), set(model.counts), 'known after a refusal')
            same_scores(scores(c, probes), before, 'score after a refusal')
            labels.add('refused')
    # Nor is a message whose tokens cannot be generated.
    for tokens, is_spam in extra + base:
        cut = case['shuffle'] % (len(tokens) + 1)
        expect_raises(strat.BrokenOff, c.learn,
                      strat.broken_off(tokens, cut), is_spam)
        if any(s == is_spam for _t, s in base):
            expect_raises(strat.BrokenOff, c.unlearn,
                          strat.broken_off(tokens, cut), is_spam)
    check_state(c, model, vocabulary, 'after messages that broke off')
    same_scores(scores(c, probes), before, 'score after messages broke off')
    # Train the extra messages, then untrain them in another order, with
    # scoring in between.
    for tokens, is_spam in extra:
        c.learn(strat.as_iterable(tokens, case['how']), is_spam)
    if case['score']:
        scores(c, probes)
    undo = list(extra)
    random.Random(case['shuffle']).shuffle(undo)
    for i, (tokens, is_spam) in enumerate(undo):
        if case['strays'] and not bigrams:
            # Tokens that are not trained (as this kind) make no difference.
            there = set(t for m, s in base + undo[i:] if s == is_spam
                        for t in m)
            strays = [t for t in sorted(vocabulary) if t not in there]
            unknown = ('stray %d' if isinstance((list(vocabulary) + [b''])[0],
                                                str) else b'stray %d')
            vocabulary.update(unknown % j for j in range(3))
            tokens = strays[:3] + tokens + strays[3:] + [unknown % 0]
            labels.add('strays')
        c.unlearn(strat.as_iterable(tokens, case['how']), is_spam)
    check_state(c, model, vocabulary, 'after undoing the extra messages')
    same(set(c.wordinfo), set(model.counts), 'known tokens after undoing')
    same_scores(scores(c, probes), before, 'score after undoing')
    # Any order of training gives the same classifier.
    d = Classifier(use_bigrams=bigrams)
    order = list(base)
    random.Random(case['shuffle'] + 1).shuffle(order)
    for tokens, is_spam in order:
        d.learn(list(tokens), is_spam)
    same(state_of(d, vocabulary), state_of(c, vocabulary),
         'state after training in another order')
    same_scores(scores(d, probes), before,
                'score after training in another order')
    # Moving messages from one class to the other (a corrected mistake).
    for tokens, is_spam in extra:
        d.learn(list(tokens), not is_spam)
    for tokens, is_spam in undo:
        d.unlearn(list(tokens), not is_spam)
        d.learn(list(tokens), is_spam)
        model.learn(tokens, is_spam)
    check_state(d, model, vocabulary, 'after correcting mistakes')
    if extra and base:
        labels.add('bigrams' if bigrams else 'unigrams')
    if any(len(set(m)) < len(m) for m, _s in extra):
        labels.add('repeated token')
    return labels


def strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 7))
        vocab = [t for t in vocab
                 if not t.startswith(b'bi:' if isinstance(t, bytes)
                                     else 'bi:')] or vocab
        bigrams = draw(st.booleans())
        message = st.tuples(strat.messages(vocab, 8), st.booleans())
        return dict(
            bigrams=bigrams, size=draw(strat.sizes),
            how=draw(strat.ordered_kinds),
            base=draw(st.lists(message, max_size=6)),
            extra=draw(st.lists(message, max_size=5)),
            probes=draw(st.lists(strat.messages(vocab, 8), min_size=1,
                                 max_size=2)),
            score=draw(st.booleans()),
            strays=draw(st.sampled_from([False, False, True])),
            shuffle=draw(st.integers(0, 50)))
    return cases()


GROUPS = [
    Group('undo', strategy, check, 3000, 120000,
          nontrivial=['bigrams', 'unigrams'],
          rule='A base and an extra training set over a small vocabulary, '
               'with and without bigrams; the extra messages are learned and '
               'unlearned in another order, and corrected from one class to '
               'the other, and what is not trained is not unlearned; non-trivial if both sets have messages.'),
]
ASSUMPTIONS = ['a message is unlearned as it was learned: the same tokens '
               '(in the same order, if bigrams are used) and class']
