"""A reference model of training and scoring, written from the documentation.

It shares no code with the code under test, and none of its constants: the
prior (0.5, of strength 0.45), the minimum distance from 0.5 (0.1) and the
maximum number of clues (150) are those of the documentation.
"""
import math
from fractions import Fraction

from lib import Violation, close, ensure, same, short

STRENGTH = Fraction(45, 100)
PRIOR = Fraction(1, 2)
HALF = Fraction(1, 2)
MIN_DISTANCE = Fraction(1, 10)
MAX_CLUES = 150
EPS = 1e-9


class Model:
    """Counts, for each token, the trained messages that contain it."""

    # The documented defaults of the options.
    strength, prior = STRENGTH, PRIOR
    min_distance, max_clues = MIN_DISTANCE, MAX_CLUES

    def __init__(self, bigrams=False):
        self.bigrams = bigrams
        self.nspam = self.nham = 0
        self.counts = {}        # token -> [spam count, ham count]

    def copy(self):
        result = Model(self.bigrams)
        result.strength, result.prior = self.strength, self.prior
        result.min_distance = self.min_distance
        result.max_clues = self.max_clues
        result.nspam, result.nham = self.nspam, self.nham
        result.counts = {k: list(v) for k, v in self.counts.items()}
        return result

    def clues_of(self, tokens):
        result = set(tokens)
        if self.bigrams:
            result.update(bigram(a, b) for a, b in zip(tokens, tokens[1:]))
        return result

    def learn(self, tokens, is_spam, times=1):
        self._train(tokens, is_spam, times)

    def unlearn(self, tokens, is_spam, times=1):
        self._train(tokens, is_spam, -times)

    def _train(self, tokens, is_spam, n):
        if is_spam:
            self.nspam += n
        else:
            self.nham += n
        for clue in self.clues_of(list(tokens)):
            c = self.counts.setdefault(clue, [0, 0])
            c[0 if is_spam else 1] += n
            assert c[0] >= 0 and c[1] >= 0
            if c == [0, 0]:
                del self.counts[clue]

    def probability(self, clue):
        """The exact probability of a clue."""
        spam, ham = self.counts.get(clue, (0, 0))
        n = spam + ham
        if n == 0:
            return self.prior
        s = Fraction(spam, self.nspam or 1)
        h = Fraction(ham, self.nham or 1)
        p = s / (s + h)
        return (self.strength * self.prior + n * p) / (self.strength + n)


def bigram(a, b):
    if isinstance(a, bytes):
        return b'bi:' + a + b' ' + b
    return 'bi:' + a + ' ' + b


def chi2_tail(log_product, n):
    """P(chi-squared with 2n degrees of freedom >= -2 * log_product)."""
    m = -log_product
    if m <= 0:
        return 1.0
    log_m = math.log(m)
    return min(1.0, math.fsum(math.exp(i * log_m - m - math.lgamma(i + 1))
                              for i in range(n)))


def combine(probabilities):
    """Returns the score and the S and H measures of the given clues."""
    n = len(probabilities)
    if n == 0:
        return 0.5, None, None
    s = 1 - chi2_tail(math.fsum(math.log(1 - p) for p in probabilities), n)
    h = 1 - chi2_tail(math.fsum(math.log(p) for p in probabilities), n)
    return (s - h + 1) / 2, s, h


def state_of(classifier, vocabulary):
    """The observable training state, restricted to a vocabulary."""
    result = {}
    for token in vocabulary:
        record = classifier._wordinfoget(token)
        if record is not None:
            result[token] = [record.spamcount, record.hamcount]
    return classifier.nspam, classifier.nham, result


def check_state(classifier, model, vocabulary, what):
    nspam, nham, counts = state_of(classifier, vocabulary)
    same((nspam, nham), (model.nspam, model.nham),
         what + ': number of trained (spam, ham)')
    expected = {t: model.counts[t] for t in vocabulary if t in model.counts}
    if counts != expected:
        bad = [(t, counts.get(t), expected.get(t))
               for t in sorted(set(counts) | set(expected), key=repr)
               if counts.get(t) != expected.get(t)]
        raise Violation('{}: (token, [spam, ham] counts, expected) {}'.format(
            what, short(bad)))


def check_score(classifier, model, tokens, what='score', make=list):
    """Compares score and evidence of a message with the reference.

    Accepts any choice between clues that are equally strong.
    """
    tokens = list(tokens)
    result = classifier.spamprob(make(tokens), True)
    ensure(isinstance(result, tuple) and len(result) == 2,
           what + ': not a (score, evidence) pair: {}', result)
    score, evidence = result
    ensure(isinstance(score, float), what + ': score {} is not a float', score)
    ensure(0.0 <= score <= 1.0, what + ': score {} not in [0, 1]', score)
    same(classifier.spamprob(make(tokens)), score,
         what + ': score without evidence')
    ensure(len(evidence) >= 2, what + ': no summary in {}', evidence)
    (hname, h), (sname, s) = evidence[:2]
    same((hname, sname), (b'*H*', b'*S*'), what + ': names of the summary')
    clues = evidence[2:]
    ensure(len(clues) <= model.max_clues, what + ': {} clues', len(clues))
    names = [w for w, _p in clues]
    ensure(len(set(names)) == len(names), what + ': repeated clue in {}',
           names)
    # Where each clue first occurs.
    first = {}
    for i, token in enumerate(tokens):
        first.setdefault(token, (i,))
        if model.bigrams and i:
            first.setdefault(bigram(tokens[i - 1], token), (i - 1, i))
    exact = {c: model.probability(c) for c in first}
    distance = {c: abs(p - HALF) for c, p in exact.items()}
    for clue, p in clues:
        ensure(clue in first, what + ': clue {} is not in the message', clue)
        close(p, float(exact[clue]), what + ': probability of %r' % (clue,))
        ensure(distance[clue] >= model.min_distance - Fraction(1, 10**9),
               what + ': clue {} of probability {} is too weak', clue, p)
    probabilities = [p for _w, p in clues]
    same(probabilities, sorted(probabilities), what + ': order of evidence')
    chosen = set(names)
    taken = {}
    if model.bigrams:
        for c in chosen:
            for i in first[c]:
                ensure(i not in taken, what + ': clues {} and {} overlap',
                       c, taken.get(i))
                taken[i] = c
    weakest = min((distance[c] for c in chosen), default=None)
    for c, d in distance.items():
        if c in chosen or (model.min_distance
                           and d < model.min_distance + Fraction(1, 10**9)):
            continue
        if len(clues) == model.max_clues and (
                not clues or float(d) <= float(weakest) + EPS):
            continue
        if model.bigrams and any(
                i in taken and float(distance[taken[i]]) >= float(d) - EPS
                for i in first[c]):
            continue
        raise Violation('{}: clue {!r} of probability {} is not used; {} clues'
                        .format(what, c, float(exact[c]), len(clues)))
    expected, es, eh = combine([float(exact[w]) for w in names])
    close(score, expected, what)
    if clues:
        close(s, es, what + ': *S*')
        close(h, eh, what + ': *H*')
    return score, clues


def same_score(actual, expected, what):
    """Compares two (score, evidence) pairs, up to rounding and the order of
    equally probable clues."""
    close(actual[0], expected[0], what)
    same([w for w, _p in actual[1][:2]], [w for w, _p in expected[1][:2]],
         what + ': names of the summary')
    for (w, x), (_w, y) in zip(actual[1][:2], expected[1][:2]):
        close(x, y, '{}: {!r}'.format(what, w))
    got, want = dict(actual[1][2:]), dict(expected[1][2:])
    same(set(got), set(want), what + ': clues')
    for w in got:
        close(got[w], want[w], '{}: probability of {!r}'.format(what, w))
