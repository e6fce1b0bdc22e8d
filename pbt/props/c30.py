"""C30: every option of the tokenizer adds exactly the tokens it documents."""
import contextlib
import math
import os.path

import mail
from lib import Group, diff_sets, patched
from hypothesis import strategies as st
from props import c14
from tokens import SAFE_HEADERS, header_tokens, power, text_tokens, \
    word_tokens, words_of, content_tokens

HABEAS = ['winter into spring', 'brightly anticipated', 'like Habeas SWE (tm)',
          'Copyright 2002 Habeas (tm)',
          'Sender Warranted Email (SWE) (tm). The sender of this',
          'email in exchange for a license for this Habeas',
          'warrant mark warrants that this is a Habeas Compliant',
          'Message (HCM) and not spam. Please report use of this',
          'mark in spam to <http://www.habeas.com/report/>.']


def header_names(data):
    """The names of the header lines of a message."""
    result = []
    for line in data.split(b'\n'):
        if not line:
            break
        if line[:1] not in b' \t':
            result.append(line.split(b':')[0].decode())
    return result


def header_values(data):
    result = []
    for line in data.split(b'\n'):
        if not line:
            break
        if line[:1] in b' \t':
            result[-1][1] += '\n' + line.decode('ascii')
        else:
            name, value = line.decode('ascii').split(':', 1)
            result.append([name, value.strip()])
    return result


def basic_tokens(data):
    result = []
    for name, value in header_values(data):
        name = name.lower()
        if name in ('received', 'date') or name.startswith('x-'):
            continue
        for word in words_of(value):
            result += [name + ':' + t for t in word_tokens(word)]
    return result


def habeas_tokens(headers, reduced):
    found = {}
    for name, value in headers:
        if name.lower().startswith('x-habeas-swe-'):
            n = int(name[-1])
            found.setdefault(n, value == HABEAS[n - 1])
    if not reduced:
        return ['x-habeas-swe-%d:%s' % (n, 'valid' if ok else 'invalid')
                for n, ok in found.items()]
    if not all(found.values()):
        return ['x-habeas-swe:invalid']
    if len(found) == 9:
        return ['x-habeas-swe:valid']
    return []


def summary_tokens(addresses, suffixes):
    """Of the addresses of all recipients."""
    found = [address.lower() for field in ('to', 'cc')
             for header in addresses.get(field, [])
             for _name, address in header]
    if suffixes:
        found = [a[::-1] for a in found]
    if len(found) < 2:
        return []
    common = 0
    while all(len(a) > common and a[common] == found[0][common]
              for a in found):
        common += 1
    if not common:
        return []
    score = common * len(found) // 10
    if suffixes:
        return ['sfxlen:' + ('big' if score > 5 else '%d' % score)]
    return ['pfxlen:' + ('big' if score > 3 else '%d' % score)]


def received_tokens(received):
    result = []
    host, address, complaint = (received[k].lower()
                                for k in ('host', 'ip', 'complaint'))
    if complaint:
        result.append('received:(%s)' % ' '.join(complaint.split()))
    if host[-1:].isalpha():
        parts = host.split('.')
        result += ['received:' + '.'.join(parts[i:])
                   for i in range(len(parts))]
    if address:
        parts = address.split('.')
        result += ['received:' + '.'.join(parts[:i]) for i in range(1, 5)]
    return result


def received_header(received):
    value = 'from ' + received['host']
    if received['ip']:
        value += received['gap'] + '(helo.test [%s])' % received['ip']
    if received['complaint']:
        value += ' (%s)' % received['complaint']
    return value + received['gap'] + 'by mx.example.org; Thu, 18 Dec 2003'


def replaced(text):
    """Without characters that are not printable ASCII."""
    return bytes(c if 32 <= c < 127 or c in b' \t\r\n' else ord('?')
                 for c in text)


def short_tokens(text):
    runs, run = [0], 0
    for word in text.split():
        run = run + 1 if len(word) < 3 else 0
        runs.append(run)
    return ['short:%d' % int(math.log2(max(runs)))] if max(runs) else []


def check(case):
    from sbclassifier import tokenizer
    from sbclassifier.message import from_bytes
    options = {k: v for k, v in case['options'].items()
               if k.islower() or hasattr(tokenizer, k)}
    message, addresses = c14.build(case)
    message['headers'] = (
        message['headers']
        + [['Received', received_header(r)] for r in case['received']]
        + [list(h) for h in case['habeas']])
    data = mail.build(message)

    on = options.get
    only = on('basic_header_tokenize') and on('basic_header_tokenize_only')
    extra = []
    if on('basic_header_tokenize'):
        extra += basic_tokens(data)
    if only:
        expected = {t.encode('utf-8') for t in content_tokens(message)}
    else:
        expected = header_tokens(message, addresses)
        if on('X_SEARCH_FOR_HABEAS_HEADERS'):
            extra += habeas_tokens(message['headers'],
                                   on('X_REDUCE_HABEAS_HEADERS'))
        if on('SUMMARIZE_EMAIL_PREFIXES'):
            extra += summary_tokens(addresses, False)
        if on('SUMMARIZE_EMAIL_SUFFIXES'):
            extra += summary_tokens(addresses, True)
        if on('MINE_RECEIVED_HEADERS'):
            for received in case['received']:
                extra += received_tokens(received)
        names = header_names(data)
        if on('COUNT_ALL_HEADER_LINES'):
            extra += ['header:%s:%d' % (n, names.count(n)) for n in names]
        if on('RECORD_HEADER_ABSENCE'):
            present = {n.lower() for n in names}
            extra += ['noheader:' + n for n in SAFE_HEADERS - present]
    images = 0
    expected = set(expected) | {t.encode('utf-8') for t in extra}
    for leaf in mail.leaves(message['body']):
        content = mail.leaf_bytes(leaf)
        if leaf['type'].startswith('text/'):
            content = content.lower()
            if on('REPLACE_NONASCII_CHARS'):
                content = replaced(content)
            expected.update(text_tokens(content))
            if on('X_SHORT_RUNS'):
                expected.update(t.encode() for t in short_tokens(content))
        elif leaf['type'] == 'application/octet-stream':
            if on('CHECK_OCTETS'):
                expected.add(b'octet:'
                             + content[:on('OCTET_PREFIX_SIZE', 5)])
        elif leaf['type'].startswith('image/'):
            images += len(content)
    if images and on('IMAGE_SIZE'):
        expected.add(('image-size:' + power(images)).encode())
    if on('GENERATE_LONG_SKIPS') is False:
        expected = {t for t in expected if not (
            t.startswith(b'skip:') or b':skip:' in t)}

    arguments = {k: v for k, v in options.items() if k.islower()}
    with contextlib.ExitStack() as stack:
        stack.enter_context(patched(tokenizer, **{
            k: v for k, v in options.items() if not k.islower()}))
        got = set(tokenizer.tokenize(from_bytes(data), **arguments))
    diff_sets(got, expected, 'tokens with %s' % options)
    # Afterwards everything is as it was.
    default = set(tokenizer.tokenize(from_bytes(data)))
    texts = [mail.leaf_bytes(leaf) for leaf in mail.leaves(message['body'])
             if leaf['type'].startswith('text/')]
    diff_sets(default, header_tokens(message, addresses).union(
        *[text_tokens(t) for t in texts]), 'tokens without options')
    return {k for k in options if got != default} or {'no effect'}


OPTIONS = dict(
    basic_header_tokenize=st.just(True),
    basic_header_tokenize_only=st.booleans(),
    CHECK_OCTETS=st.just(True), OCTET_PREFIX_SIZE=st.sampled_from(
        [1, 4, 5, 6, 20]),
    X_SHORT_RUNS=st.just(True), IMAGE_SIZE=st.just(True),
    COUNT_ALL_HEADER_LINES=st.just(True), RECORD_HEADER_ABSENCE=st.just(True),
    MINE_RECEIVED_HEADERS=st.just(True), GENERATE_LONG_SKIPS=st.just(False),
    SUMMARIZE_EMAIL_PREFIXES=st.just(True),
    SUMMARIZE_EMAIL_SUFFIXES=st.just(True),
    X_SEARCH_FOR_HABEAS_HEADERS=st.just(True),
    X_REDUCE_HABEAS_HEADERS=st.booleans(),
    REPLACE_NONASCII_CHARS=st.just(True))

WORDS = ['free', 'V', 'I', 'A', 'G', 'RA', 'xx', 'Money', 'longer-than-twelve',
         'Caf\u00e9', '\u00e9', 'na\u00efve-and-more-than-that', 'a\x01b\x7fc',
         'joe@some.host.example', 'three', '\x80\x9f']


def strategy():
    text = st.lists(st.tuples(st.sampled_from(WORDS), st.sampled_from(
        [' ', ' ', '\n', '\t', '\x0b'])), max_size=9).map(
            lambda ws: ''.join(w + s for w, s in ws))
    # Longer runs of short words.
    run = st.builds(lambda w, n: (w + ' ') * n, st.sampled_from(['V', 'xx']),
                    st.sampled_from([4, 7, 8, 9, 15, 16, 17, 31, 32, 100]))
    text = st.one_of(text, text, st.builds(
        lambda a, b, c: a + b + c, text, run, text))
    cte = st.sampled_from(['base64', 'quoted-printable'])
    leaf = st.one_of(
        st.fixed_dictionaries(dict(
            type=st.sampled_from(['text/plain', 'text/html']), text=text,
            charset=st.sampled_from(['utf-8', 'iso-8859-1']), cte=cte)),
        st.fixed_dictionaries(dict(
            type=st.sampled_from(['application/octet-stream', 'image/gif',
                                  'image/png', 'application/x-other']),
            data=st.one_of(st.binary(max_size=8), st.sampled_from(
                [b'x' * n for n in (1, 2, 3, 5, 6, 90, 91, 1000, 5000)])),
            cte=st.sampled_from(['base64', 'base64', 'quoted-printable']))))
    def multipart(parts):
        return st.fixed_dictionaries(dict(
            multipart=st.sampled_from(['mixed', 'mixed', 'alternative']),
            parts=st.lists(parts, min_size=1, max_size=4)))
    nested = multipart(st.one_of(leaf, leaf, multipart(leaf)))
    body = st.one_of(leaf, multipart(leaf), nested)
    address = st.one_of(
        st.sampled_from(['itinerart@a.test', 'itinerant@b.test',
                         'ITINERA@c.example', 'skip@mojam.com',
                         'bugs@mojam.com', 'Design@Mojam.com', 'x@y.test',
                         'itinerart@bugs.mojam.com']))
    plain = st.one_of(
        st.tuples(st.just('plain'), st.sampled_from(
            ['Subject', 'Date', 'date', 'X-Other', 'x-face', 'Organization',
             'Comments', 'List-Id', 'Errors-To', 'In-Reply-To',
             'Importance', 'Resent-Date', 'Apparently-X-To', 'Sx-Id',
             'Not-Received']),
            st.sampled_from(['Some words, here: $5!', 'folded\n line',
                             'joe.the.spammer@spam.example wins', '',
                             'a-very-long-hyphenated-word', 'x' * 30,
                             '=?utf-8?q?caf=C3=A9?='])),
        st.tuples(st.just('address'), st.sampled_from(['To', 'Cc', 'to']),
                  st.lists(st.tuples(st.sampled_from(['', 'Joe']), address),
                           min_size=1, max_size=4)))
    received = st.fixed_dictionaries(dict(
        host=st.sampled_from(['a.b.example', 'X.test', '10.0.0.1', 'host',
                              'a_b-c.d1.test', 'unknown',
                              'mx-7.out.east.dc2.mail.Example.CO.uk',
                              '.'.join('l%d' % i for i in range(40)) + '.x']),
        ip=st.sampled_from(['', '1.2.3.4', '218.5.93.116']),
        complaint=st.sampled_from(['', 'may be forged', 'May  Be\n Forged']),
        gap=st.sampled_from([' ', '\n\t', '  '])))
    habeas = st.one_of(
        st.just([]), st.just([('X-Habeas-SWE-%d' % (i + 1), v)
                              for i, v in enumerate(HABEAS)]),
        st.lists(st.tuples(st.integers(1, 9), st.booleans()), max_size=9,
                 unique_by=lambda x: x[0]).map(
            lambda hs: [('X-HABEAS-SWE-%d' % n, HABEAS[n - 1] if ok
                         else 'forged') for n, ok in hs]))

    def once(headers):
        result, seen = [], set()
        for h in headers:
            if h[1] == 'Subject':
                if 'Subject' in seen:
                    continue
                seen.add('Subject')
            result.append(h)
        return result

    @st.composite
    def cases(draw):
        names = draw(st.lists(st.sampled_from(sorted(OPTIONS)), min_size=1,
                              max_size=4, unique=True))
        if 'OCTET_PREFIX_SIZE' in names and 'CHECK_OCTETS' not in names:
            names.append('CHECK_OCTETS')
        if ('X_REDUCE_HABEAS_HEADERS' in names
                and 'X_SEARCH_FOR_HABEAS_HEADERS' not in names):
            names.append('X_SEARCH_FOR_HABEAS_HEADERS')
        return dict(
            options={n: draw(OPTIONS[n]) for n in names},
            headers=draw(st.lists(plain, max_size=5).map(once)),
            received=draw(st.lists(received, max_size=2)),
            habeas=draw(habeas), body=draw(body))
    return cases()


GROUPS = [
    Group('options', strategy, check, 3200, 120000,
          nontrivial=sorted(OPTIONS),
          rule='A message with what the options look at (recipients, '
               'Received and Habeas headers, octets, images, runs of short '
               'words, non-ASCII text) and one to four options; the tokens '
               'must be the default ones and those documented for the '
               'options; non-trivial if the options change the tokens.'),
]
ASSUMPTIONS = ['options are module attributes of the tokenizer or arguments '
               'of tokenize(); an attribute that does not exist is not tested',
               'the host options (X_MINE_NNTP_HEADERS) are part of C27, those '
               'of URLs part of C16', 'images are not read (CRACK_IMAGES)']
