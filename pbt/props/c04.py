"""C04: scoring is a pure function of the training set and the token set."""
import strat
from bayes import Model, check_score, check_state, same_score
from lib import Group, close, ensure, same
from hypothesis import strategies as st


def check(case):
    from sbclassifier import Classifier
    c = Classifier()            # scored at every step
    model = Model()
    other, others = Classifier(), Model()
    trained = []
    labels = set()
    size = case.get('size', 1)
    vocabulary = set(strat.enlarge(case['vocabulary'], size))
    seen = {}
    ops = [dict(op, tokens=strat.enlarge(op['tokens'], size))
           for op in case['ops']]
    for op in ops:
        if op['op'] == 'learn':
            c.learn(list(op['tokens']), op['spam'])
            model.learn(op['tokens'], op['spam'])
            trained.append((op['tokens'], op['spam']))
            seen = {}
        elif op['op'] == 'unlearn' and trained:
            tokens, is_spam = trained.pop(op['index'] % len(trained))
            c.unlearn(list(tokens), is_spam)
            model.unlearn(tokens, is_spam)
            seen = {}
        elif op['op'] == 'many':
            # A message is learned very often.
            for _ in range(op['times']):
                c.learn(list(op['tokens']), op['spam'])
            model.learn(op['tokens'], op['spam'], op['times'])
            trained.extend([(op['tokens'], op['spam'])] * op['times'])
            seen = {}
            labels.add('many')
        elif op['op'] == 'other':
            # Another classifier has nothing to do with it.
            if op['index'] % 3:
                other.learn(list(op['tokens']), op['spam'])
                others.learn(op['tokens'], op['spam'])
            check_score(other, others, op['tokens'], 'other classifier')
            labels.add('other classifier')
        elif op['op'] == 'score':
            tokens = op['tokens']
            key = frozenset(tokens)
            make = lambda x: strat.as_iterable(x, op['how'])
            check_score(c, model, tokens, make=make)
            result = c.spamprob(make(tokens), True)
            clues = result[1][2:]
            arranged = strat.arrange(tokens, op['arrange'])
            stream = strat.as_iterable(arranged, op['how'])
            again = c.spamprob(stream, True)
            strat.unchanged(stream, arranged, op['how'], 'scoring')
            same_score(again, result, 'score of the same tokens rearranged')
            if key in seen:
                same_score(result, seen[key], 'score asked for again')
                labels.add('again')
            seen[key] = result
            if clues and len(trained) > 1:
                labels.add('scored')
            if any(t not in model.counts for t in tokens):
                labels.add('unknown token')
        check_state(c, model, vocabulary, 'after %s' % op['op'])
        same(set(c.wordinfo), set(model.counts), 'known tokens')
    # A classifier that was never asked for a score gives the same answers.
    d = Classifier()
    for tokens, is_spam in trained:
        d.learn(list(tokens), is_spam)
    for op in ops:
        same_score(d.spamprob(list(op['tokens']), True),
                   c.spamprob(list(op['tokens']), True),
                   'score by a classifier that did not score before')
    return labels


def check_padding(case):
    """Tokens that carry no evidence do not change a score."""
    from sbclassifier import Classifier
    c = Classifier()
    for tokens, is_spam in case['train']:
        c.learn(list(tokens), is_spam)
    tokens = case['tokens']
    expected = c.spamprob(list(tokens), True)
    empty = type(tokens[0])() if tokens else ''
    padding = ['zz%d' % i for i in range(case['padding'])]
    if isinstance(empty, bytes):
        padding = [p.encode() for p in padding]
    mixed = list(tokens)
    for i, p in enumerate(padding):
        mixed.insert((i * 7) % (len(mixed) + 1), p)
    same_score(c.spamprob(mixed, True), expected,
               'score with unknown tokens added')
    close(c.spamprob(iter(mixed)), expected[0], 'score from an iterator')
    labels = set()
    if len(expected[1]) > 2 and padding:
        labels.add('padded')
    same(Classifier().spamprob(list(tokens)), 0.5,
         'score by an untrained classifier')
    same(c.spamprob([]), 0.5, 'score of no tokens')
    return labels


def strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 6))
        message = strat.messages(vocab, 8)
        op = st.fixed_dictionaries(dict(
            op=st.sampled_from(['learn', 'learn', 'unlearn', 'score',
                                'score', 'other']),
            spam=st.booleans(), tokens=message, how=strat.iterable_kinds,
            index=st.integers(0, 9), arrange=st.integers(0, 5)))
        size = draw(strat.sizes)
        ops = draw(st.lists(op, min_size=2, max_size=14))
        if draw(st.integers(0, 29)) == 17:
            size = 1
            # Two tokens become frequent, but not equally so.
            is_spam = draw(st.booleans())
            times = draw(st.sampled_from([255, 256, 1000, 1000, 3000]))
            at = draw(st.sampled_from([0, 0, len(ops) - 1]))
            ops[at:at] = [
                dict(op='many', spam=is_spam, how='list', times=times,
                     tokens=vocab[:2] + draw(strat.messages(vocab, 3))),
                dict(op='many', spam=is_spam, how='list', times=times,
                     tokens=vocab[:1] + draw(strat.messages(vocab[2:] or vocab[:1], 3))),
                dict(op='score', spam=is_spam, how='list', index=0,
                     arrange=0, tokens=vocab)]
        return dict(vocabulary=vocab, size=size, ops=ops)
    return cases()


def padding_strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 6))
        message = strat.messages(vocab, 8)
        return dict(train=draw(st.lists(st.tuples(message, st.booleans()),
                                        max_size=6)),
                    tokens=draw(message),
                    padding=draw(st.sampled_from([0, 1, 5, 200])))
    return cases()


GROUPS = [
    Group('history', strategy, check, 2500, 100000, nontrivial=['scored'],
          rule='A history of learn, unlearn and score operations, and of '
               'another classifier; every '
               'score is compared with the reference for the current '
               'training, repeated with rearranged tokens, and compared '
               'with a classifier that was never asked for a score; '
               'non-trivial if a score used clues after two messages.'),
    Group('padding', padding_strategy, check_padding, 1500, 50000,
          nontrivial=['padded'],
          rule='A message scored with and without up to 200 unknown tokens; '
               'non-trivial if there are clues and unknown tokens.'),
]
ASSUMPTIONS = []
