"""C23: a trainer keeps a classifier trained on what its corpora contain."""
import contextlib
import os

import mail
from bayes import Model, check_score, check_state
from lib import Group, ensure, expect_raises, same, scratch
from hypothesis import strategies as st


class BrokenDown(Exception):
    pass


@contextlib.contextmanager
def broken(classifier, name):
    def fail(*args, **kw):
        raise BrokenDown(name)
    setattr(classifier, name, fail)
    try:
        yield
    finally:
        delattr(classifier, name)


def check(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import PickleClassifier
    from sbclassifier.corpora import Corpus, FileCorpus
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    from sbclassifier.trainers import HamTrainer, SpamTrainer, Trainer
    labels = set()
    with scratch() as directory:
        corpora, contents = [], []
        for i, on_disk in enumerate(case['on_disk']):
            if on_disk:
                path = os.path.join(directory, str(i))
                os.mkdir(path)
                corpora.append(FileCorpus(path, '*', case['cache']))
            else:
                corpora.append(Corpus())
            contents.append({})
        classifier = (PickleClassifier(os.path.join(directory, 'db'))
                      if case['stored'] else Classifier())
        # Which corpora are spam, ham or not listened to.
        kinds = case['kinds']
        spam = [c for c, k in zip(corpora, kinds) if k == 'spam']
        ham = [c for c, k in zip(corpora, kinds) if k == 'ham']
        if case['general']:
            trainers = [Trainer(classifier, True, iter(spam)),
                        Trainer(classifier, False, ham)]
        else:
            trainers = [SpamTrainer(classifier, spam),
                        HamTrainer(classifier, tuple(ham))]
        classifiers = [classifier]
        if case['second']:
            # Another classifier learns from the same corpora.
            other = Classifier()
            classifiers.append(other)
            trainers += [Trainer(other, True, spam),
                         Trainer(other, False, ham)]
            labels.add('second')
        vocabulary = set()
        n, last = 0, None
        for op in case['ops']:
            i = op['corpus'] % len(corpora)
            corpus, content, kind = corpora[i], contents[i], kinds[i]
            trained_as = {'spam': True, 'ham': False, 'none': None}[kind]
            if op['op'] == 'add':
                if op['again'] and last is not None:
                    # The same bytes again, as another message.
                    data = last
                else:
                    data = op['message']
                last = data
                n += 1
                name = 'm%d' % n
                m = from_bytes(data, name)
                tokens = set(tokenize(from_bytes(data)))
                vocabulary |= tokens
                same(m.is_trained(), None, 'a new message is trained')
                corpus.add_message(m, emit_signal=op['emit'])
                content[name] = [m, tokens, op['emit']]
                same(m.is_trained(), trained_as if op['emit'] else None,
                     'how the added message is trained')
            elif op['op'] == 'remove' and content:
                name = sorted(content)[op['pick'] % len(content)]
                m, tokens, loud = content[name]
                if op['again']:
                    m = corpus[name]
                    same(m.id(), name, 'id')
                # What was not trained is not untrained.
                corpus.remove_message(m, emit_signal=loud)
                del content[name]
                if not any(name in c for c in contents):
                    same(m.is_trained(), None,
                         'the removed message is trained')
                if trained_as is not None and loud:
                    labels.add('untrained')
            elif op['op'] == 'also' and content and len(corpora) > 1:
                # The same message in another corpus, too.
                name = sorted(content)[op['pick'] % len(content)]
                m, tokens, loud = content[name]
                j = (i + 1 + op['again']) % len(corpora)
                if name in contents[j] or not loud:
                    continue
                corpora[j].add_message(m)
                contents[j][name] = [m, tokens, True]
                same(m.is_trained(),
                     {'spam': True, 'ham': False, 'none': m.is_trained()}[
                         kinds[j]], 'how the message added again is trained')
                if 'none' not in (kind, kinds[j]):
                    labels.add('twice')
            elif op['op'] == 'move' and content and len(corpora) > 1:
                # A message found to be of the other kind.
                name = sorted(content)[op['pick'] % len(content)]
                m, tokens, loud = content[name]
                j = (i + 1) % len(corpora)
                if not loud or name in contents[j]:
                    continue
                corpus.remove_message(m)
                del content[name]
                corpora[j].add_message(m)
                contents[j][name] = [m, tokens, True]
                if sum(name in c for c in contents) == 1:
                    same(m.is_trained(), {'spam': True, 'ham': False,
                                          'none': None}[kinds[j]],
                         'how the moved message is trained')
                if kinds[j] != kind and 'none' not in (kind, kinds[j]):
                    labels.add('corrected')
            elif op['op'] == 'refused' and case['on_disk'][
                    op['corpus'] % len(corpora)]:
                # A message that cannot be written.
                m = from_bytes(op['message'], 'no directory/m')
                expect_raises(Exception, corpus.add_message, m,
                              emit_signal=op['emit'])
                same(m.is_trained(), None, 'how the refused message is '
                     'trained')
                vocabulary |= set(tokenize(from_bytes(op['message'])))
                labels.add('refused')
            elif (op['op'] == 'fail' and trained_as is not None
                  and not case['second']):
                # The database of the classifier breaks down for a while.
                n += 1
                m = from_bytes(op['message'], 'm%d' % n)
                tokens = set(tokenize(from_bytes(op['message'])))
                vocabulary |= tokens
                with broken(classifier, 'learn'):
                    expect_raises(BrokenDown, corpus.add_message, m)
                same(m.is_trained(), None,
                     'how the message that could not be learned is trained')
                corpus.remove_message(m, emit_signal=False)
                m = from_bytes(op['message'], 'm%d' % n)
                corpus.add_message(m)
                with broken(classifier, 'unlearn'):
                    expect_raises(BrokenDown, corpus.remove_message, m)
                same(m.is_trained(), trained_as,
                     'how the message that could not be unlearned is trained')
                corpus.add_message(m, emit_signal=False)
                corpus.remove_message(m)
                same(m.is_trained(), None, 'the removed message is trained')
                labels.add('broken down')
            model = Model()
            for k, content in zip(kinds, contents):
                for m, tokens, loud in content.values():
                    if k != 'none' and loud:
                        model.learn(tokens, k == 'spam')
            for c in classifiers:
                check_state(c, model, vocabulary, 'after ' + op['op'])
                same(set(c.wordinfo), set(model.counts), 'known tokens')
        for content in contents:
            for m, tokens, loud in content.values():
                for c in classifiers:
                    check_score(c, model, sorted(tokens))
        if model.counts:
            labels.add('trained')
        del trainers
    return labels


def strategy():
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(['add', 'add', 'add', 'remove', 'move', 'move',
                            'also', 'refused', 'fail']),
        corpus=st.integers(0, 2), message=mail.simple_messages(6),
        emit=st.sampled_from([True, True, True, False]), again=st.booleans(),
        pick=st.integers(0, 9)))

    @st.composite
    def cases(draw):
        n = draw(st.sampled_from([2, 2, 3, 1]))
        return dict(
            on_disk=draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            kinds=draw(st.one_of(
                st.just(['spam', 'ham', 'none'][:n]),
                st.lists(st.sampled_from(['spam', 'ham', 'none']),
                         min_size=n, max_size=n))),
            cache=draw(st.sampled_from([1, 2, 100])),
            stored=draw(st.booleans()),
            second=draw(st.sampled_from([False, False, True])), general=draw(st.booleans()),
            ops=draw(st.lists(op, min_size=1, max_size=14)))
    return cases()


GROUPS = [
    Group('history', strategy, check, 800, 25000,
          nontrivial=['untrained', 'corrected', 'twice'],
          rule='A history of adding, removing and moving messages in one to '
               'three corpora, or of one message to several (in memory or directories, listened to as spam, '
               'as ham, or not), some without signals; after each step the '
               'classifier is compared with a model trained on the current '
               'content; non-trivial if a trained message is removed or '
               'moved to the other kind, or trained twice.'),
]
ASSUMPTIONS = ['messages of a corpus have distinct identifiers',
               'the trainer is alive']
