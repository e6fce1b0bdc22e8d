"""C29: mail filtering from end to end is the same with every classifier."""
import os

import mail
from bayes import Model, check_score, check_state, same_score
from lib import Group, ensure, same, scratch
from hypothesis import strategies as st

KINDS = ['memory', 'pickle', 'shelve', 'cdb']


class System:
    """A classifier that two directories of messages are trained on."""

    def __init__(self, kind, directory, cache_size):
        from sbclassifier import classifiers
        from sbclassifier.corpora import FileCorpus
        self.kind, self.directory = kind, directory
        self.cache_size = cache_size
        path = os.path.join(directory, 'db')
        if kind == 'memory':
            self.classifier = classifiers.Classifier()
        else:
            self.classifier = {
                'pickle': classifiers.PickleClassifier,
                'shelve': classifiers.ShelveClassifier,
                'cdb': classifiers.CDBClassifier}[kind](path)
        self.corpora = {}
        for is_spam in (False, True):
            name = os.path.join(directory, 'spam' if is_spam else 'ham')
            os.makedirs(name, exist_ok=True)
            self.corpora[is_spam] = FileCorpus(name, cache_size=cache_size)
        self.listen()

    def listen(self):
        from sbclassifier.trainers import HamTrainer, SpamTrainer
        self.trainers = [SpamTrainer(self.classifier, [self.corpora[True]]),
                         HamTrainer(self.classifier, [self.corpora[False]])]

    def restarted(self):
        if self.kind == 'memory':
            old = self.classifier
            result = System(self.kind, self.directory, self.cache_size)
            result.classifier = old
            result.listen()
            return result
        self.classifier.store()
        self.classifier.close()
        return System(self.kind, self.directory, self.cache_size)

    def check(self, model, contents, what):
        what = '%s classifier, %s' % (self.kind, what)
        check_state(self.classifier, model, set(model.counts), what)
        for is_spam, corpus in self.corpora.items():
            same(sorted(corpus.keys()), sorted(
                n for n, (spam, _d) in contents.items() if spam == is_spam),
                what + ': messages')


def check(case):
    labels = set()
    with scratch() as directory:
        systems = []
        for kind in KINDS:
            path = os.path.join(directory, kind)
            os.mkdir(path)
            systems.append(System(kind, path, case['cache']))
        try:
            run(case, systems, labels)
        finally:
            for s in systems:
                if hasattr(s.classifier, 'close'):
                    s.classifier.close()
    return labels


def run(case, systems, labels):
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    contents = {}
    number = 0
    stored = 0
    for op in case['ops']:
        what = op['op']
        if what == 'restart':
            systems[:] = [s.restarted() for s in systems]
            stored = len(contents)
            labels.add('restarted')
        elif what == 'deliver':
            name = 'm%03d' % number
            number += 1
            contents[name] = (op['spam'], op['data'])
            for s in systems:
                s.corpora[op['spam']].add_message(
                    from_bytes(op['data'], name))
        elif what in ('remove', 'move') and contents:
            name = sorted(contents)[op['pick'] % len(contents)]
            is_spam, data = contents[name]
            if stored:
                labels.add(what + 'd after a restart')
            for s in systems:
                m = s.corpora[is_spam][name]
                same(m.as_bytes(), from_bytes(data).as_bytes(),
                     'the kept message')
                s.corpora[is_spam].remove_message(m)
                if what == 'move':
                    s.corpora[not is_spam].add_message(m)
            if what == 'move':
                contents[name] = (not is_spam, data)
            else:
                del contents[name]
        model = Model()
        for is_spam, data in contents.values():
            model.learn(list(tokenize(from_bytes(data))), is_spam)
        for s in systems:
            s.check(model, contents, 'after ' + what)
        tokens = list(tokenize(from_bytes(op['data'])))
        if what == 'score':
            results = [s.classifier.spamprob(
                tokenize(from_bytes(op['data'])), True) for s in systems]
            for s, result in zip(systems, results):
                same_score(result, results[0],
                           'score by the %s classifier' % s.kind)
            check_score(systems[0].classifier, model, tokens)
            annotate(op['data'], results[0], tokens)
            if model.counts:
                labels.add('scored')


def annotate(data, result, tokens):
    """What is written into a message has no effect when it comes back."""
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    prob, clues = result
    m = from_bytes(data, 'some-id')
    m.set_classification(prob)
    m.add_sb_headers(prob, clues, include_evidence=True)
    m = from_bytes(m.as_bytes())
    same(sorted(set(tokenize(m))), sorted(set(tokens)),
         'tokens of the annotated message')
    m.remove_sb_headers()
    same(sorted(set(tokenize(m))), sorted(set(tokens)),
         'tokens once the annotations are removed')


def strategy():
    data = mail.simple_messages(6)
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(['deliver', 'deliver', 'deliver', 'remove', 'move',
                            'restart', 'score']),
        spam=st.booleans(), data=data, pick=st.integers(0, 9)))
    return st.fixed_dictionaries(dict(
        cache=st.sampled_from([1, 2, 256]),
        ops=st.lists(op, min_size=2, max_size=12)))


GROUPS = [
    Group('system', strategy, check, 480, 16000,
          nontrivial=['restarted', 'scored'],
          rule='A history of delivering, removing, moving and scoring '
               'messages and of restarting everything, with two directories '
               'and four kinds of classifiers; after each step all of them '
               'must agree with a model trained on the current content; '
               'non-trivial if there was a restart, or a score was computed '
               'after training.'),
]
ASSUMPTIONS = ['what is to be kept is stored before it is loaded again']
