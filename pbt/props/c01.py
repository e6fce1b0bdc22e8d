"""C01: training counts exactly the trained messages."""
import strat
from bayes import Model, check_state
from lib import Group, Violation, ensure, expect_raises, same
from hypothesis import strategies as st


def check(case):
    from sbclassifier import Classifier
    c = Classifier()
    model = Model()
    trained = []
    vocabulary = {b'never seen', 'never seen'}
    labels = set()
    for op in case['ops']:
        kind, is_spam = op['op'], op['spam']
        op = dict(op, tokens=strat.enlarge(op['tokens'], case.get('size', 1)))
        if kind == 'learn':
            tokens = op['tokens']
            vocabulary.update(tokens)
            train(c, 'learn', is_spam, op['how'], tokens, op['via'])
            model.learn(tokens, is_spam)
            trained.append((tokens, is_spam))
            labels.add('learn')
            if len(set(tokens)) < len(tokens):
                labels.add('repeated token')
        elif kind == 'unlearn' and trained:
            tokens, is_spam = trained.pop(op['index'] % len(trained))
            # In another order and with other repetitions, it is the same
            # message.
            tokens = strat.arrange(tokens, op['arrange'])
            train(c, 'unlearn', is_spam, op['how'], tokens, op['via'])
            model.unlearn(tokens, is_spam)
            labels.add('unlearn')
        elif kind == 'many':
            # One message is learned very often, and unlearned again.
            for _ in range(op['times']):
                train(c, 'learn', is_spam, 'list', op['tokens'], op['via'])
            vocabulary.update(op['tokens'])
            model.learn(op['tokens'], is_spam, op['times'])
            check_state(c, model, vocabulary, 'after %d times' % op['times'])
            for _ in range(op['times'] - 1):
                train(c, 'unlearn', is_spam, 'list', op['tokens'], op['via'])
            model.unlearn(op['tokens'], is_spam, op['times'] - 1)
            trained.append((op['tokens'], is_spam))
            labels.add('many')
        elif kind == 'broken':
            # If there is no telling what a message contains, then it is not
            # trained.
            if op['via'] == 'flag' or (model.nspam if is_spam
                                       else model.nham) == 0:
                verb = 'learn'
            else:
                verb = 'unlearn'
            expect_raises(strat.BrokenOff, getattr(c, verb),
                          strat.broken_off(op['tokens'], op['index']), is_spam)
            vocabulary.update(op['tokens'])
            labels.add('broken off')
        elif kind == 'refused':
            if (model.nspam if is_spam else model.nham) == 0:
                expect_raises(ValueError, train, c, 'unlearn', is_spam,
                              op['how'], op['tokens'], op['via'])
                vocabulary.update(op['tokens'])
                labels.add('refused')
        check_state(c, model, vocabulary, 'after %s' % kind)
        known = set(c.wordinfo)
        ensure(known == set(model.counts), 'known tokens are {} instead of {}',
               sorted(known, key=repr), sorted(model.counts, key=repr))
    for tokens, is_spam in reversed(trained):
        c.unlearn(tokens, is_spam)
    same((c.nspam, c.nham, dict(c.wordinfo)), (0, 0, {}),
         'state after everything was untrained')
    return labels


def train(c, verb, is_spam, how, tokens, via):
    stream = strat.as_iterable(tokens, how)
    try:
        if via == 'flag':
            return getattr(c, verb)(stream, is_spam)
        return getattr(c, verb + ('_spam' if is_spam else '_ham'))(stream)
    finally:
        strat.unchanged(stream, tokens, how, verb)


def strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 8))
        message = strat.messages(vocab, 10)
        op = st.fixed_dictionaries(dict(
            op=st.sampled_from(['learn', 'learn', 'learn', 'unlearn',
                                'unlearn', 'refused', 'broken']),
            spam=st.booleans(), tokens=message,
            how=strat.iterable_kinds, index=st.integers(0, 9),
            arrange=st.integers(0, 5),
            via=st.sampled_from(['flag', 'name'])))
        ops = draw(st.lists(op, max_size=14))
        if draw(st.integers(0, 79)) == 23:
            ops.insert(draw(st.integers(0, len(ops))), dict(
                op='many', spam=draw(st.booleans()), index=0, arrange=0,
                tokens=draw(strat.messages(vocab, 3)), how='list', via='flag',
                times=draw(st.sampled_from([255, 256, 1000, 40000]))))
            return dict(size=1, ops=ops)
        return dict(size=draw(strat.sizes), ops=ops)
    return cases()


GROUPS = [
    Group('history', strategy, check, 4000, 150000,
          nontrivial=['unlearn', 'refused', 'broken off'],
          rule='A history of learn, unlearn and refused unlearn operations '
               'on messages drawn from a small vocabulary of str or bytes '
               'tokens, passed as several kinds of iterables; non-trivial if '
               'a message was unlearned, an unlearn was refused, or the '
               'tokens of a message could not be generated.'),
]
ASSUMPTIONS = ['only messages that were learned are unlearned (or an unlearn '
               'is attempted when no message of that class is trained)']
