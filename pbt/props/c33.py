"""C33: what was written in the documented formats can be read.

The databases and pickles are written here, independently of the code under
test: a pickle of a classifier has the state (5, words, spam, ham) or (5,
words, spam, ham, bigrams?), one of a word has (spam, ham), one of a message
(identifier, classification, trained?); a shelf has the state (5, spam, ham)
and the counts (spam, ham) of words; a constant database has the state
"ham,spam" and the counts "ham,spam" of words.
"""
import gc
import io
import os
import pickle
import shelve

import strat
from bayes import Model, check_score, check_state
from lib import Group, ensure, expect_raises, same, scratch
from hypothesis import strategies as st
from props.c09 import spec_write

VERSION = 5
STATE = 'saved state'


class StandIn:
    """An object that is pickled as one of the class under test."""

    def __init__(self, state):
        self.state = state

    def __getstate__(self):
        return self.state


class PickleClassifier(StandIn):
    place = 'sbclassifier.classifiers.storage'


class WordInfo(StandIn):
    place = 'sbclassifier.classifiers.basic'


class Message(StandIn):
    place = 'sbclassifier.message'


class Classification:
    place = 'sbclassifier.message'

    def __init__(self, number):
        self.number = number

    def __reduce__(self):
        return Classification, (self.number,)


class Pickler(pickle._Pickler):

    def save_global(self, obj, name=None):
        if hasattr(obj, 'place'):
            self.write(pickle.GLOBAL + ('%s\n%s\n' % (
                obj.place, obj.__name__)).encode('ascii'))
            self.memoize(obj)
        else:
            super().save_global(obj, name)

    dispatch = dict(pickle._Pickler.dispatch)
    dispatch[type] = save_global


def pickled(value, protocol):
    f = io.BytesIO()
    Pickler(f, protocol).dump(value)
    return f.getvalue()


def write_pickle(path, model, case, version=VERSION):
    state = (version, {t: WordInfo(tuple(c)) for t, c in model.counts.items()},
             model.nspam, model.nham)
    if case['bigrams'] is not None:
        state += (case['bigrams'],)
    with open(path, 'wb') as f:
        f.write(pickled(PickleClassifier(state), case['protocol']))


def text_of(token):
    return token.decode('latin-1') if isinstance(token, bytes) else token


def write_shelf(path, model, case, version=VERSION):
    with shelve.open(path, protocol=case['protocol']) as f:
        for token, counts in model.counts.items():
            f[text_of(token)] = tuple(counts)
        f[STATE] = (version, model.nspam, model.nham)


def write_cdb(path, model, case):
    items = [(text_of(token).encode('utf-8'), b'%d,%d' % (ham, spam))
             for token, (spam, ham) in model.counts.items()]
    items.insert(case['protocol'] % (len(items) + 1),
                 (STATE.encode(), b'%d,%d' % (model.nham, model.nspam)))
    with open(path, 'wb') as f:
        f.write(spec_write(items, 2))


def open_any(kind, path):
    from sbclassifier.classifiers import CDBClassifier, PickleClassifier, \
        ShelveClassifier
    return {'pickle': PickleClassifier, 'shelf': ShelveClassifier,
            'cdb': CDBClassifier}[kind](path)


WRITERS = dict(pickle=write_pickle, shelf=write_shelf, cdb=write_cdb)


def model_of(case):
    model = Model(bool(case['bigrams']) and case['kind'] == 'pickle')
    for tokens, is_spam in case['before']:
        model.learn(tokens, is_spam)
    for token, (spam, ham) in zip(sorted(model.counts), case['more']):
        # As if there had been many more messages.
        model.counts[token][0] += spam
        model.counts[token][1] += ham
    model.nspam += max(spam for spam, _ham in case['more'])
    model.nham += max(ham for _spam, ham in case['more'])
    return model


def check(case):
    kind = case['kind']
    model = model_of(case)
    vocabulary = set(case['vocabulary']) | set(model.counts)
    with scratch() as directory:
        path = os.path.join(directory, 'db')
        WRITERS[kind](path, model, case)
        c = open_any(kind, path)
        check_state(c, model, vocabulary, 'opened')
        check_score(c, model, case['probe'], 'score once opened')
        c.load()
        check_state(c, model, vocabulary, 'loaded')
        before = model.copy()
        for tokens, is_spam in case['after']:
            c.learn(list(tokens), is_spam)
            model.learn(tokens, is_spam)
        vocabulary |= set(model.counts)
        check_state(c, model, vocabulary, 'trained')
        check_score(c, model, case['probe'], 'score once trained')
        c.store()
        c.close()
        c = open_any(kind, path)
        check_state(c, model, vocabulary, 'stored and opened')
        for tokens, is_spam in case['after']:
            c.unlearn(list(tokens), is_spam)
        check_state(c, before, vocabulary, 'untrained')
        check_score(c, before, case['probe'], 'score once untrained')
        c.close()
    return {kind} if before.counts and case['after'] else set()


def strategy():
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(sorted(WRITERS)))
        # Where a word that equals the key of the state goes is not documented.
        vocabulary = draw(strat.vocabularies(2, 6).map(lambda ts: [
            t for t in ts if text_of(t).lstrip('\0') != STATE] or [ts[0][:1]]))
        message = st.tuples(strat.messages(vocabulary, 6), st.booleans())
        return dict(
            kind=kind, vocabulary=vocabulary,
            bigrams=draw(st.sampled_from([None, False, True])),
            before=draw(st.lists(message, max_size=4)),
            after=draw(st.lists(message, max_size=3)),
            more=draw(st.lists(st.tuples(
                st.sampled_from([0, 0, 1, 9, 255, 1000, 123456]),
                st.sampled_from([0, 0, 1, 9, 255, 1000, 123456])),
                min_size=1, max_size=4)),
            probe=draw(strat.messages(vocabulary, 6)),
            protocol=draw(st.integers(2, 5)))
    return cases()


def content(kind, path, directory):
    if kind == 'shelf':
        gc.collect()
        with shelve.open(path, 'r') as f:
            return sorted(os.listdir(directory)), dict(f)
    with open(path, 'rb') as f:
        return sorted(os.listdir(directory)), f.read()


def check_version(case):
    """Databases of another version are refused, and left alone."""
    from sbclassifier import Classifier
    kind = case['kind']
    model = model_of(case)
    with scratch() as directory:
        path = os.path.join(directory, 'db')
        WRITERS[kind](path, model, case, case['version'])
        before = content(kind, path, directory)
        expect_raises(ValueError, open_any, kind, path)
        same(content(kind, path, directory), before, 'the refused database')
        # The same when one that was opened before is replaced by it.
        other = os.path.join(directory, 'other')
        c = open_any(kind, other)
        c.store()
        if kind == 'pickle':
            os.replace(path, other)
            before = content(kind, other, directory)
            expect_raises(ValueError, c.load)
            same(content(kind, other, directory), before,
                 'the refused database')
        c.close()
    d = Classifier()
    d.learn([b'x'], True)
    expect_raises(ValueError, d.__setstate__,
                  (case['version'],) + d.__getstate__()[1:])
    same((d.nspam, d.nham, set(d.wordinfo)), (1, 0, {b'x'}),
         'state once another one was refused')
    return {'refused'}


def version_strategy():
    return st.builds(
        lambda case, kind, version: dict(case, kind=kind, version=version),
        strategy(), st.sampled_from(['pickle', 'shelf']),
        st.sampled_from([0, 1, 2, 3, 4, 6, 7, 50, 'x', None]))


def check_message(case):
    from sbclassifier import message as module
    number = case['classification']
    state = (case['id'], number and Classification(number), case['trained'])
    m = pickle.loads(pickled(Message(state), case['protocol']))
    ensure(type(m) is module.Message, 'a message is a {}', type(m))
    same(m.id(), case['id'], 'identifier')
    same(m.classification(), number and module.Classification[
        ['spam', 'ham', 'unsure'][number - 1]], 'classification')
    same(m.is_trained(), case['trained'], 'training')
    return {'message'} if number else set()


def message_strategy():
    return st.fixed_dictionaries(dict(
        id=st.one_of(st.none(), st.text('ab1-\u00e9', min_size=1, max_size=4)),
        classification=st.sampled_from([None, 1, 2, 3]),
        trained=st.sampled_from([None, True, False]),
        protocol=st.integers(2, 5)))


GROUPS = [
    Group('open', strategy, check, 1500, 50000,
          nontrivial=['pickle', 'shelf', 'cdb'],
          rule='A pickle (with the setting for bigrams or, as before there '
               'was one, without), a shelf or a constant database written by '
               'the check itself is opened, scored with, trained, stored, '
               'opened again and untrained; non-trivial if it is not empty '
               'and trained.'),
    Group('version', version_strategy, check_version, 300, 10000,
          nontrivial=['refused'],
          rule='Pickles and shelves of another version; all are '
               'non-trivial.'),
    Group('message', message_strategy, check_message, 300, 5000,
          nontrivial=['message'],
          rule='Pickles of the state of a message, written by the check '
               'itself; non-trivial if it is classified.'),
]
ASSUMPTIONS = ['a shelf or constant database holds either str or bytes tokens',
               'dbm uses the same library as when the shelf was written']
