"""C08: a CDB classifier is what it was when it was last stored."""

import stores
from lib import Group


def make(path):
    from sbclassifier.classifiers import CDBClassifier
    return CDBClassifier(path)


def check(case):
    return stores.run(case, make, revert=True)


def check_large(case):
    return stores.check_large(case, make, revert=True)


GROUPS = [
    Group('history', lambda: stores.histories(
        ['learn', 'learn', 'learn', 'unlearn', 'store', 'store', 'load', 'reopen',
         'second', 'other', 'gone', 'score', 'broken', 'huge'])(), check, 1600, 50000, nontrivial=['loaded'],
          rule='A history of learn, unlearn, score, store, load and reopen '
               'operations compared with a model of the current and of the '
               'stored state after each; non-trivial if a non-empty state '
               'was loaded.'),
    Group('large', lambda: stores.large([600, 5000, 30000, 70000]),
          check_large, 20, 2000, nontrivial=['loaded'],
          rule='A history of training, storing and loading with a '
               'vocabulary of thousands of tokens, all of whose counts are '
               'compared with a model; non-trivial if a non-empty state was '
               'loaded.'),
]
ASSUMPTIONS = ['a database holds either str or bytes tokens',
               'no surrogates in str tokens']
