"""C25: a directory corpus touches nothing outside its directory."""
import os

import mail
from lib import Group, ensure, expect_raises, same, scratch
from hypothesis import strategies as st

# Relative to the directory of the corpus, which is `a/b/c/d/corpus` in a
# scratch directory: no name leads further up than the scratch directory.
OUTSIDE = ['../secret', '../../secret', '../../../secret', '../x/secret',
           'sub/secret', 'sub/../../secret', './../secret', '../../new',
           '../new', 'sub/new', '../corpus/m1', 'sub/../m1', './m1', 'm1/',
           '..', '.', '../', 'sub/..', '//secret', 'sub//secret',
           '../corpus-other/m1', '../corpusm1']


def snapshot(top):
    result = {}
    for path, directories, files in os.walk(top):
        for name in directories:
            result[os.path.join(path, name)] = None
        for name in files:
            full = os.path.join(path, name)
            with open(full, 'rb') as f:
                result[full] = f.read()
    return result


def check(case):
    from sbclassifier.corpora import FileCorpus, ExpiryFileCorpus
    from sbclassifier.message import from_bytes
    labels = set()
    with scratch() as top:
        directory = os.path.join(top, 'a', 'b', 'c', 'd', 'corpus')
        os.makedirs(os.path.join(directory, 'sub'))
        os.makedirs(os.path.join(top, 'a', 'b', 'c', 'd', 'x'))
        os.makedirs(os.path.join(top, 'a', 'b', 'c', 'd', 'corpus-other'))
        for path in ('a/secret', 'a/b/secret', 'a/b/c/secret',
                     'a/b/c/d/secret', 'a/b/c/d/x/secret',
                     'a/b/c/d/corpusm1', 'a/b/c/d/corpus-other/m1',
                     'a/b/c/d/corpus/sub/secret', 'a/b/c/d/corpus/m1'):
            with open(os.path.join(top, path), 'wb') as f:
                f.write(b'Subject: secret\n\n' + path.encode() + b'\n')
        if case['expiring']:
            corpus = ExpiryFileCorpus(3600, directory, case['filter'],
                                      cache_size=case['cache'])
        else:
            corpus = FileCorpus(directory, case['filter'], case['cache'])
        expected = snapshot(top)
        old = os.getcwd()
        os.chdir(os.path.join(top, 'a', 'b', 'c', 'd', 'x'))
        try:
            for op in case['ops']:
                name = op['name']
                if name.startswith('/'):
                    name = top + '/a/b' + name
                inside = op['name'] in ('m1', 'm2')
                m = from_bytes(op['message'])
                if op['explicit'] and op['op'] == 'add':
                    arguments = dict(message_id=name)
                else:
                    arguments = {}
                    if op['header'] and name.isprintable():
                        # The identifier comes from the message itself.
                        m = from_bytes(b'X-Spambayes-MailId: '
                                       + name.encode() + b'\n'
                                       + op['message'])
                        same(m.set_id_from_payload(), name, 'identifier')
                    else:
                        m.set_id(name)
                path = os.path.join(directory, name)
                if op['op'] == 'add':
                    if inside:
                        corpus.add_message(m, **arguments)
                        expected[path] = m.as_bytes()
                    else:
                        expect_raises((ValueError, OSError),
                                      corpus.add_message, m, **arguments)
                elif op['op'] == 'remove':
                    corpus.remove_message(m)
                    if inside:
                        expected.pop(path, None)
                else:
                    expected_bytes = expected.get(path) if inside else None
                    found = corpus.get(name)
                    if expected_bytes is None:
                        same(found, None, 'message at %r' % name)
                        expect_raises(KeyError, corpus.__getitem__, name)
                        ensure(name not in corpus, '{} is in the corpus', name)
                    else:
                        ensure(found is not None, 'nothing at {}', name)
                if not inside:
                    labels.add(op['op'])
                now = snapshot(top)
                changed = sorted(k[len(top):] for k in set(now) | set(expected)
                                 if now.get(k, 0) != expected.get(k, 0))
                ensure(not changed, '{} {} changed {}', op['op'], name,
                       changed)
                if case['expiring']:
                    corpus.remove_expired_messages()
                    same(snapshot(top), expected, 'after expiry')
                keys = sorted(corpus.keys())
                same(keys, sorted(
                    n for n in ('m1', 'm2')
                    if os.path.join(directory, n) in expected), 'keys')
                same(len(list(corpus.values())), len(keys), 'values')
        finally:
            os.chdir(old)
    return labels


def strategy():
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(['add', 'remove', 'get']),
        name=st.one_of(st.sampled_from(OUTSIDE), st.sampled_from(OUTSIDE),
                       st.sampled_from(['m1', 'm2', '/secret', '/new',
                                        '/c/d/corpus/m1'])),
        message=mail.simple_messages(3), explicit=st.booleans(),
        header=st.booleans()))
    return st.fixed_dictionaries(dict(
        filter=st.sampled_from(['*', '[!a]*']),
        cache=st.integers(1, 3), expiring=st.booleans(),
        ops=st.lists(op, min_size=1, max_size=8)))


GROUPS = [
    Group('history', strategy, check, 1200, 40000,
          nontrivial=['add', 'remove', 'get'],
          rule='A history of adding, removing and looking up messages whose '
               'identifiers (given, or taken from the message header) name '
               'files elsewhere in a scratch tree: relative, absolute, '
               'through subdirectories, with trailing slashes; after each '
               'step the whole tree is compared with the expectation; '
               'non-trivial if an identifier leads outside.'),
]
ASSUMPTIONS = ['no symbolic links in the directory']
