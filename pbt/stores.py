"""Histories of a stored classifier, compared with an in-memory model."""
import os

import strat
from bayes import Model, check_score, check_state
from lib import ensure, expect_raises, same, scratch
from hypothesis import strategies as st

FILENAMES = ['bayes', 'my bayes.db', 'b\u00e4yes', 'x.y.z', 'sub/dir/bayes']


# Numbers of spam and ham messages.
HUGE = [(70000, 200), (3, 1234567), (10 ** 6, 10 ** 6), (2 ** 31 - 1, 5),
        (2 ** 31, 2 ** 32), (10 ** 9, 99999999), (2 ** 64, 12345678901)]


def operations(vocab, kinds):
    message = strat.messages(vocab, 8)
    return st.fixed_dictionaries(dict(
        op=st.sampled_from(kinds), spam=st.booleans(), tokens=message,
        index=st.integers(0, 9), how=strat.iterable_kinds))


def histories(kinds, max_ops=14, token_kinds=('str', 'bytes')):
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 7, token_kinds))
        ops = []
        if draw(st.integers(0, 3)):
            # Something is stored early, so that loading has an effect.
            ops = draw(st.lists(operations(vocab, ['learn']), min_size=1,
                                max_size=3))
            ops.append(dict(op='store', spam=False, tokens=[], index=0,
                            how='list'))
        ops += draw(st.lists(operations(vocab, kinds), max_size=max_ops))
        if draw(st.integers(0, 39)) == 23:
            # A message is learned very often, as one is by many users.
            ops.insert(draw(st.integers(0, len(ops))), dict(
                op='many', spam=draw(st.booleans()),
                tokens=draw(strat.messages(vocab, 3)), how='list',
                index=draw(st.sampled_from([254, 255, 256, 999, 10000,
                                            65536]))))
            return dict(vocabulary=vocab, ops=ops, size=1,
                        filename=draw(st.sampled_from(FILENAMES)))
        return dict(vocabulary=vocab, ops=ops, size=draw(strat.sizes),
                    filename=draw(st.sampled_from(FILENAMES)))
    return cases


def run(case, make, revert):
    """Runs a history of operations.

    `make` opens the classifier at a path. If `revert` is true, then loading
    forgets what was not stored; otherwise the history stores before it loads.
    """
    labels = set()
    size = case.get('size', 1)
    vocabulary = strat.enlarge(case['vocabulary'], size)
    ops = [dict(op, tokens=strat.enlarge(op['tokens'], size))
           for op in case['ops']]
    if size > 1:
        labels.add('large')
    with scratch() as directory:
        path = os.path.join(directory, case['filename'])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        c = make(path)
        model, trained = Model(), []
        stored, stored_trained = Model(), []
        check_state(c, model, vocabulary, 'new database')
        deleted = False
        for op in ops:
            kind = op['op']
            if kind == 'learn':
                c.learn(strat.as_iterable(op['tokens'], op['how']),
                        op['spam'])
                model.learn(op['tokens'], op['spam'])
                trained.append((op['tokens'], op['spam']))
            elif kind == 'unlearn':
                if not trained:
                    continue
                tokens, is_spam = trained.pop(op['index'] % len(trained))
                c.unlearn(strat.as_iterable(tokens, op['how']), is_spam)
                model.unlearn(tokens, is_spam)
                if any(t not in model.counts for t in tokens):
                    deleted = True
            elif kind == 'many':
                for _ in range(op['index']):
                    c.learn(op['tokens'], op['spam'])
                    model.learn(op['tokens'], op['spam'])
                trained.append((op['tokens'], op['spam']))
                labels.add('many')
            elif kind == 'huge':
                # As if very many messages had been learned, and a token were
                # in most of them.
                from sbclassifier.classifiers.basic import WordInfo
                spam, ham = HUGE[op['index'] % len(HUGE)]
                c.learn(list(op['tokens']), op['spam'])
                model.learn(op['tokens'], op['spam'])
                trained.append((op['tokens'], op['spam']))
                c.nspam, c.nham = c.nspam + spam, c.nham + ham
                model.nspam, model.nham = (model.nspam + spam,
                                           model.nham + ham)
                for token in set(op['tokens']):
                    old = model.counts[token]
                    new = [old[0] + spam - 1, old[1] + ham - 1]
                    c._wordinfoset(token, WordInfo(*new))
                    model.counts[token] = new
                # Training is what makes scores be computed anew.
                c.learn(list(op['tokens']), op['spam'])
                model.learn(op['tokens'], op['spam'])
                trained.append((op['tokens'], op['spam']))
                labels.add('huge')
            elif kind == 'broken':
                # The tokens of a message cannot be generated.
                expect_raises(strat.BrokenOff, c.learn, strat.broken_off(
                    op['tokens'], op['index']), op['spam'])
                labels.add('broken off')
            elif kind == 'score':
                check_score(c, model, op['tokens'])
            elif kind == 'store':
                c.store()
                stored, stored_trained = model.copy(), list(trained)
            elif kind == 'other':
                # Somebody else changes the database in the meantime.
                c.spamprob(list(vocabulary))
                if not revert:
                    c.store()
                    stored, stored_trained = model.copy(), list(trained)
                    c.close()
                d = make(path)
                d.learn(list(op['tokens']), op['spam'])
                stored.learn(op['tokens'], op['spam'])
                stored_trained.append((op['tokens'], op['spam']))
                d.store()
                d.close()
                c.load()
                model, trained = stored.copy(), list(stored_trained)
                labels.add('changed by others')
            elif kind == 'gone':
                # Somebody deletes the database.
                c.spamprob(list(vocabulary))
                if os.path.exists(path):
                    os.remove(path)
                c.load()
                model, trained = Model(), []
                stored, stored_trained = Model(), []
                labels.add('deleted')
            elif kind in ('load', 'reopen', 'second'):
                if not revert:
                    c.store()
                    stored, stored_trained = model.copy(), list(trained)
                if kind == 'second':
                    if not revert:
                        # A database is not opened twice at the same time.
                        c.close()
                    d = make(path)
                    check_state(d, stored, vocabulary, 'second instance')
                    check_score(d, stored, op['tokens'])
                    d.close()
                    if not revert:
                        c = make(path)
                else:
                    if kind == 'load':
                        # A score computed before must not be remembered.
                        c.spamprob(list(op['tokens']))
                        c.load()
                    else:
                        c.close()
                        c = make(path)
                    if revert and model.counts != stored.counts:
                        labels.add('reverted')
                    model, trained = stored.copy(), list(stored_trained)
                if stored.counts:
                    labels.add('loaded')
                if deleted:
                    labels.add('loaded after deletion')
            check_state(c, model, vocabulary, 'after ' + kind)
            check_score(c, model, op['tokens'], 'score after ' + kind)
        c.store()
        c.close()
        c = make(path)
        check_state(c, model, vocabulary, 'at the end')
        check_score(c, model, vocabulary, 'score at the end')
        c.close()
        if model.counts:
            labels.add('stored')
    return labels


def check_large(case, make, revert):
    """A vocabulary of the size that training on real mail makes."""
    labels = set()
    n, form = case['words'], case['form']
    words = [form % i for i in range(n)]
    if case['bytes']:
        words = [w.encode() for w in words]
    with scratch() as directory:
        path = os.path.join(directory, 'bayes')
        c = make(path)
        model, trained = Model(), []
        stored, stored_trained = Model(), []
        for kind, start, part, step, is_spam in case['ops']:
            message = words[n * start // 16:][:max(1, n * part // 16):step]
            if kind == 'learn':
                c.learn(message, is_spam)
                model.learn(message, is_spam)
                trained.append((message, is_spam))
            elif kind == 'unlearn':
                if trained:
                    message, is_spam = trained.pop(start % len(trained))
                    c.unlearn(message, is_spam)
                    model.unlearn(message, is_spam)
                    labels.add('unlearned')
            else:
                if kind == 'store' or not revert:
                    c.store()
                    stored, stored_trained = model.copy(), list(trained)
                if kind == 'load':
                    c.load()
                elif kind == 'reopen':
                    c.close()
                    c = make(path)
                if kind != 'store':
                    model, trained = stored.copy(), list(stored_trained)
                    if stored.counts:
                        labels.add('loaded')
                check_state(c, model, words, 'after ' + kind)
            check_score(c, model, message[::max(1, len(message) // 400)],
                        'score after ' + kind)
        c.store()
        c.close()
        c = make(path)
        check_state(c, model, words, 'at the end')
        c.close()
    labels.add('%d words' % n)
    return labels


def large(sizes):
    op = st.tuples(
        st.sampled_from(['learn', 'learn', 'unlearn', 'store', 'load',
                         'load', 'reopen', 'reopen']),
        st.integers(0, 15), st.integers(0, 16), st.integers(1, 3),
        st.booleans())
    first = st.tuples(st.just('learn'), st.integers(0, 3),
                      st.integers(10, 16), st.just(1), st.booleans())
    store = st.tuples(st.sampled_from(['store', 'reopen', 'store']), st.just(0),
                      st.just(0), st.just(1), st.just(True))
    return st.fixed_dictionaries(dict(
        words=st.sampled_from(sizes), bytes=st.booleans(),
        form=st.sampled_from(['%d', 'word%06d', 'url:%d.example.com',
                              'subject:a long word that has number %d']),
        ops=st.tuples(first, store, st.lists(op, max_size=6)).map(
            lambda t: [t[0], t[1]] + t[2])))
