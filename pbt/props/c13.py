"""C13: the words of every text part of a message become its tokens."""
import mail
from lib import Group, diff_sets, ensure, same
from hypothesis import strategies as st
from tokens import header_tokens, text_tokens


def check(case):
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    message = case['message']
    data = mail.build(message)
    if case['crlf']:
        data = data.replace(b'\n', b'\r\n')
    got = list(tokenize(from_bytes(data)))
    ensure(all(type(t) is bytes for t in got), 'tokens that are not bytes')
    body, labels = [], set()
    texts = 0
    for leaf in mail.leaves(message['body']):
        if (leaf.get('type') or 'text/plain').lower().startswith('text/'):
            words = text_tokens(mail.leaf_bytes(leaf))
            body.extend(words)
            texts += 1
            if leaf.get('cte') in ('base64', 'quoted-printable'):
                labels.add('encoded')
        else:
            labels.add('other part')
    expected = header_tokens(message, {}) | set(body)
    diff_sets(got, expected, 'tokens')
    # Bigrams depend on the order of the words.
    same([t for t in got if b':' not in t],
         [t for t in body if b':' not in t], 'words in order')
    if texts > 1:
        labels.add('several texts')
    if any(t.startswith(b'skip:') for t in body):
        labels.add('long')
    if any(t.startswith(b'email name:') for t in body):
        labels.add('address')
    if any(not t.isascii() or t.startswith(b'8bit') for t in body):
        labels.add('8bit')
    if len(body) > 1:
        labels.add('words')
    return labels


SAFE = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
        '!"#$%\'()*+,-./:;?@[\\]^_`{|}~')


def word_strategy(extra=''):
    letters = st.sampled_from(SAFE + extra)
    plain = st.text(alphabet=letters, min_size=1, max_size=16)
    sized = st.builds(lambda c, n: (c * n), letters, st.sampled_from(
        [2, 3, 11, 12, 13, 19, 20, 29, 30, 39, 40, 41, 100]))
    address = st.builds(
        lambda a, b, n: a + 'x' * n + '@' + b, st.sampled_from(
            ['bob', 'a.b', 'JOE', '']), st.sampled_from(
                ['spam.test', 'mail.example.org', 'localhost', 'a.b@c.d']),
        st.sampled_from([0, 5, 12, 20, 24, 25, 26]))
    words = [st.sampled_from(mail.WORDS), plain, sized, address]
    if extra:
        # Words of any share of other characters.
        words.append(st.builds(
            lambda c, d, m, n: d * m + c * n, st.sampled_from(extra), letters,
            st.one_of(st.integers(0, 15), st.sampled_from([21, 25, 37, 39])),
            st.one_of(st.integers(1, 11), st.sampled_from([23, 25, 37]))))
    return st.one_of(*words)


def harmless(text):
    """Nothing that is taken for a URL, a uuencoded file and so on."""
    low = text.lower()
    return not any(x in low for x in ('http:', 'https:', 'ftp:', 'begin',
                                      'src=', 'height', 'width'))


def text_strategy(extra=''):
    space = st.sampled_from([' ', ' ', '  ', '\n', '\t', '\n\n', '\x0b', '\x0c'])
    return st.lists(st.tuples(word_strategy(extra), space), max_size=10).map(
        lambda ws: ''.join(w + s for w, s in ws)).filter(harmless)


def leaf_strategy():
    @st.composite
    def cases(draw):
        charset, extra = draw(st.sampled_from([
            (None, ''), ('us-ascii', ''), ('utf-8', 'é€☃É'),
            ('iso-8859-1', 'é\xa0\x85ÿÉ'), ('windows-1252', '€é'),
            ('koi8-r', 'жЯ'), ('x-unknown', ''), ('UTF-8', 'é')]))
        text = draw(text_strategy(extra))
        codec = {'x-unknown': 'ascii', None: 'ascii'}.get(charset, charset)
        cte = draw(st.sampled_from(
            [None, '8bit', 'base64', 'quoted-printable']
            + (['7bit'] if not extra else [])))
        if cte in (None, '7bit') and not text.isascii():
            cte = '8bit'
        result = dict(charset=charset, cte=cte, text=text, codec=codec,
                      type=draw(st.sampled_from(
                          ['text/plain', 'text/html', 'text/x-other',
                           'TEXT/PLAIN', 'application/x-foo', 'image/gif']
                          if charset else [None, 'text/plain'])))
        if draw(st.integers(0, 4)) == 0:
            result['disposition'] = draw(st.sampled_from(['inline',
                                                          'attachment']))
        return result
    return cases()


def strategy():
    body = st.recursive(leaf_strategy(), lambda p: st.one_of(
        st.fixed_dictionaries(dict(
            multipart=st.sampled_from(['mixed', 'alternative', 'related']),
            preamble=st.sampled_from(['', 'preamble words']),
            parts=st.lists(p, min_size=1, max_size=3))),
        p.map(lambda b: dict(rfc822=dict(headers=[], body=b)))),
        max_leaves=4)
    return st.fixed_dictionaries(dict(
        message=st.fixed_dictionaries(dict(headers=st.just([]), body=body)),
        crlf=st.booleans()))




# -- a lot of it ------------------------------------------------------------

def expand(part, case):
    if 'multipart' in part:
        return dict(part, parts=[expand(p, case) for p in part['parts']])
    if 'rfc822' in part:
        return dict(rfc822=dict(part['rfc822'], body=expand(
            part['rfc822']['body'], case)))
    # Every copy has words of its own.
    return dict(part, text=case['space'].join(
        '%s word%d' % (part['text'], i) for i in range(case['copies']))
        + '\n' + 'LONG' * case['long'])


def check_large(case):
    body = expand(case['message']['body'], case)
    if case['parts'] > 1:
        body = dict(multipart='mixed', preamble='', parts=[
            body if i % 2 else dict(
                type='text/plain', charset=None, codec='ascii', cte=None,
                text='part%d' % i) for i in range(case['parts'])])
    for i in range(case['deep']):
        body = (dict(multipart='mixed', preamble='', parts=[body]) if i % 3
                else dict(rfc822=dict(headers=[], body=body)))
    message = dict(case['message'], body=body)
    labels = check(dict(case, message=message))
    for name, n in (('copies', 500), ('long', 5000), ('parts', 50),
                    ('deep', 10)):
        if case[name] >= n:
            labels.add('large: ' + name)
    return labels


def large_strategy():
    what = st.one_of(
        st.fixed_dictionaries(dict(copies=st.one_of(
            st.sampled_from([500, 3000, 20000]), st.integers(1, 3000)))),
        st.fixed_dictionaries(dict(long=st.one_of(
            st.sampled_from([5000, 100000]), st.integers(1, 100000)))),
        st.fixed_dictionaries(dict(parts=st.sampled_from([20, 50, 101, 300]))),
        st.fixed_dictionaries(dict(deep=st.sampled_from([3, 10, 40]))))
    leaf = leaf_strategy().filter(lambda p: (p['type'] or 'text/').lower()
                                  .startswith('text/'))
    return st.builds(
        lambda leaf, space, crlf, what: {
            'copies': 1, 'long': 0, 'parts': 1, 'deep': 0, 'space': space,
            'crlf': crlf, 'message': dict(headers=[], body=leaf), **what},
        leaf, st.sampled_from([' ', '\n']), st.booleans(), what)


GROUPS = [
    Group('body', strategy, check, 2400, 100000,
          nontrivial=['words'],
          rule='A message of nested parts of several types, character sets '
               'and transfer encodings whose texts are words of every length, '
               'addresses and non-ASCII words; its tokens must be exactly '
               'those of the documented rules, the words in order; '
               'non-trivial if there are at least two words.'),
    Group('large', large_strategy, check_large, 150, 3000,
          nontrivial=['large: copies', 'large: long', 'large: parts',
                      'large: deep'],
          rule='Thousands of copies of a text, words of up to 400 KB, up to '
               '300 parts, parts nested up to 40 levels deep, with the same '
               'oracle; non-trivial from 500 copies, 20 KB, 50 parts or 10 '
               'levels on.'),
]
ASSUMPTIONS = ['texts without markup and URLs (see C15 and C16)']
