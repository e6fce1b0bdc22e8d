"""C03: the score is the documented combination of the strongest clues."""
import decimal
import random

from bayes import Model, check_score
from lib import Group, close, ensure, expect_raises, same
from hypothesis import strategies as st


def name_of(i, kind):
    text = 'w%d' % i if i % 7 else '\u00e9%d' % i
    return text.encode('utf-8') if kind == 'bytes' else text


def build(case, flip=False):
    """Trains a classifier and the model with the operations of a case."""
    from sbclassifier import Classifier
    c, model = Classifier(), Model()
    for op in case['train']:
        lo, hi = op['lo'], op['hi']
        if op['keep'] is None:
            ids = range(lo, hi)
        else:
            r = random.Random(op['keep'])
            ids = [i for i in range(lo, hi) if r.random() < 0.5]
        tokens = [name_of(i, case['kind']) for i in ids]
        is_spam = bool(op['spam']) ^ flip
        for _ in range(op['times']):
            c.learn(tokens, is_spam)
        model.learn(tokens, is_spam, op['times'])
        if op['undo'] and op['times']:
            c.unlearn(tokens, is_spam)
            model.unlearn(tokens, is_spam)
    return c, model


def probe_tokens(case):
    return [[name_of(i, case['kind']) for lo, hi in ranges
             for i in range(lo, hi)] for ranges in case['probes']]


def check(case):
    c, model = build(case)
    labels = set()
    for tokens in probe_tokens(case):
        score, clues = check_score(c, model, tokens)
        if clues:
            labels.add('clues')
        else:
            same(score, 0.5, 'score without clues')
            labels.add('no clues')
        if len(clues) == 150:
            labels.add('150 clues')
        strong = sum(1 for _w, p in clues if p < 0.05 or p > 0.95)
        if strong >= 80:
            labels.add('extreme')
        if score < 1e-6 or score > 1 - 1e-6:
            labels.add('certain')
        elif 0.2 <= score <= 0.9 and clues:
            labels.add('unsure')
    return labels


def check_symmetry(case):
    """Exchanging ham and spam exchanges the two ends of the scale."""
    c, model = build(case)
    d, _mirror = build(case, flip=True)
    labels = set()
    for tokens in probe_tokens(case):
        distances = [abs(model.probability(t) - 0.5) for t in set(tokens)]
        if any(abs(x - 0.1) < 1e-9 for x in map(float, distances)):
            continue
        if sum(1 for x in distances if x > 0.1) > 150:
            continue        # which of equally strong clues are used is free
        score, clues = c.spamprob(tokens, True)
        mirror, mirror_clues = d.spamprob(tokens, True)
        close(mirror, 1 - score, 'score of the mirrored classifier')
        p = dict(clues[2:])
        q = dict(mirror_clues[2:])
        same(set(q), set(p), 'clues of the mirrored classifier')
        for w in p:
            close(q[w], 1 - p[w], 'mirrored probability of %r' % (w,))
        if p:
            labels.add('mirrored')
    return labels


def poisson(m, n):
    """The probability of less than `n` events where `m` are expected."""
    with decimal.localcontext() as context:
        context.prec = 40
        m = decimal.Decimal(m)
        term = total = decimal.Decimal(1)
        for i in range(1, n):
            term = term * m / i
            total += term
        return float(total * (-m).exp())


def check_chi2(case):
    """The chi-squared function by itself."""
    from sbclassifier.classifiers.basic import chi2Q
    x2, n = case['x2'], case['n']
    if case['relative']:
        # Around the middle of the distribution.
        x2 = 2 * n * case['relative']
    got = chi2Q(x2, 2 * n)
    ensure(0 <= got <= 1, 'chi2Q({}, {}) is {}', x2, 2 * n, got)
    close(got, poisson(x2 / 2, n), 'chi2Q(%r, %d)' % (x2, 2 * n))
    expect_raises(ValueError, chi2Q, x2, 2 * n + 1)
    expect_raises(ValueError, chi2Q, x2, 2 * n - 1)
    return {'inner'} if 1e-6 < got < 1 - 1e-6 else set()


def chi2_strategy():
    return st.fixed_dictionaries(dict(
        x2=st.one_of(st.floats(0, 50), st.floats(0, 5000),
                     st.sampled_from([0, 0.0, 1, 1399, 1400, 1401, 1e5])),
        relative=st.one_of(st.none(), st.floats(0.7, 1.4)),
        n=st.one_of(st.integers(1, 8), st.integers(1, 320),
                    st.integers(1, 3000))))


def strategy():
    @st.composite
    def cases(draw):
        big = draw(st.booleans())
        size = 330 if big else 14
        bound = st.integers(0, size)

        @st.composite
        def op(draw):
            a, b = sorted((draw(bound), draw(bound)))
            return dict(lo=a, hi=b,
                        keep=draw(st.none() | st.integers(0, 99)),
                        spam=draw(st.booleans()),
                        times=draw(st.sampled_from([1, 1, 1, 2, 3, 7, 40])),
                        undo=draw(st.sampled_from([False, False, True])))

        @st.composite
        def ranges(draw):
            result = []
            for _ in range(draw(st.integers(1, 3))):
                a, b = sorted((draw(bound), draw(bound)))
                result.append([a, b])
            return result
        return dict(kind=draw(st.sampled_from(['str', 'bytes'])),
                    train=draw(st.lists(op(), max_size=7)),
                    probes=draw(st.lists(ranges(), min_size=1, max_size=2)))
    return cases()


def extremes():
    """Many strong clues: products that underflow, and cancellation."""
    result = []
    for n in (1, 2, 3, 20, 60, 75, 76, 100, 149, 150, 151, 200, 300):
        for times in (1, 2, 20, 150):
            one = dict(lo=0, hi=n, keep=None, undo=False, times=times)
            two = dict(one, lo=n, hi=2 * n)
            for kind in ('str', 'bytes'):
                result.append(dict(
                    kind=kind, train=[dict(one, spam=True),
                                      dict(two, spam=False)],
                    probes=[[[0, n]], [[n, 2 * n]], [[0, 2 * n]],
                            [[0, n], [n, n + n // 2]]]))
    return result


GROUPS = [
    Group('formula', strategy, check, 1600, 60000, fixed=extremes,
          nontrivial=['clues'],
          rule='A classifier trained with up to 7 (repeated) messages over '
               '14 or 330 tokens, and messages scored with it; compared with '
               'an independent computation of the documented formula, '
               'accepting any choice among equally strong clues; non-trivial '
               'if there is at least one clue.'),
    Group('symmetry', strategy, check_symmetry, 800, 30000,
          nontrivial=['mirrored'],
          rule='The same training with ham and spam exchanged; non-trivial '
               'if there is a clue and at most 150 qualify.'),
    Group('chi2', chi2_strategy, check_chi2, 400, 20000,
          nontrivial=['inner'],
          rule='The chi-squared function for up to 6000 degrees of freedom, '
               'compared with the sum computed with 40 digits, and refused '
               'for odd ones; non-trivial if the probability is neither '
               'almost 0 nor almost 1.'),
]
ASSUMPTIONS = ['floating point results are compared with a tolerance of 1e-9',
               'a token within 1e-9 of the minimum distance may be used or '
               'ignored']
