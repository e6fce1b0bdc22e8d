"""C12: every message can be tokenized, always in the same way."""
import email
import itertools

import mail
from lib import Group, ensure, patched, same
from hypothesis import strategies as st
from props.c27 import Resolver


def picture(message):
    """All that a message contains. (Decoding a payload adds to the list of
    defects; that is the email package's own doing.)"""
    return (list(message.raw_items()), message.get_unixfrom(),
            message.preamble, message.epilogue, message.get_content_type(),
            message.get_default_type(),
            [picture(p) for p in message.get_payload()]
            if message.is_multipart() else message._payload,
            dict((k, repr(v)) for k, v in vars(message).items()
                 if k not in ('_payload', 'policy', 'defects')))


def check_tokens(tokens, what):
    for t in tokens:
        ensure(type(t) is bytes, what + ': token {} is not bytes', t)


def roundrobin(*iterables):
    for pair in itertools.zip_longest(*iterables):
        yield from pair


def plain(data):
    """The message of the email package, which cannot parse just any."""
    try:
        return email.message_from_bytes(data)
    except (TypeError, ValueError):
        return None


def check(case):
    from sbclassifier import Classifier
    from sbclassifier.message import from_bytes, from_string
    from sbclassifier.tokenizer import Tokenizer, tokenize
    labels = set()
    data = case['data']
    message = from_bytes(data)
    before = picture(message)
    got = list(tokenize(message))
    check_tokens(got, 'tokens')
    same(picture(message), before, 'the tokenized message')
    same(list(tokenize(message)), got, 'tokens of the same message again')
    same(list(Tokenizer()(from_bytes(data))), got,
         'tokens of the message parsed again, by another tokenizer')
    # Tokenizing something else at the same time does not matter.
    wanted = list(tokenize(from_bytes(case['other'])))
    for steps in case['steps'], [1] * 3:
        first = iter(tokenize(from_bytes(data)))
        second = iter(tokenize(from_bytes(case['other'])))
        tokens, others = [], []
        for n in steps:
            tokens += itertools.islice(first, n)
            others += itertools.islice(second, n)
        tokens += first
        same(tokens, got, 'tokens while another message is tokenized')
        others += second
        same(others, wanted, 'tokens of the other message')
    same(list(roundrobin(tokenize(from_bytes(data)),
                         tokenize(from_bytes(case['other'])))),
         list(roundrobin(got, wanted)), 'tokens of two messages in turns')
    # Plain messages of the email package are messages too.
    if plain(data) is None:
        labels.add('odd')
    else:
        same(list(tokenize(plain(data))), got,
             'tokens of a message of the email package')
    if data.isascii():
        text = data.decode('ascii')
        same(list(tokenize(text)), list(tokenize(from_string(text))),
             'tokens of the text')
        labels.add('text')
    # So every message can be trained and scored.
    c = Classifier()
    c.learn(tokenize(message), True)
    p = c.spamprob(tokenize(message))
    ensure(0 <= p <= 1, 'score {}', p)
    ensure(p > 0.5 or not set(got), 'score {} of a message trained as spam', p)
    c.unlearn(tokenize(message), True)
    same(c.wordinfo, {}, 'known tokens once unlearned')
    if message.defects or any(p.defects for p in message.walk()):
        labels.add('defects')
    if message.is_multipart():
        labels.add('parts')
    if any(t.startswith(b'control:') for t in got):
        labels.add('control')
    if not data.isascii():
        labels.add('8bit')
    return labels


def check_text(case):
    """Text may contain any character (see ASSUMPTIONS)."""
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    got = list(tokenize(case['text']))
    check_tokens(got, 'tokens')
    same(list(tokenize(case['text'])), got, 'tokens again')
    try:
        data = case['text'].encode('ascii', 'surrogateescape')
    except UnicodeEncodeError:
        pass
    else:
        same(got, list(tokenize(from_bytes(data))),
             'tokens of the same message as text and as bytes')
    return {'text'} if not case['text'].isascii() else set()


def check_interleaved(case):
    """At whatever token one message is interrupted by another one."""
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    data, other = (b''.join(b'%s: %s\n' % (n.encode(), v.encode())
                            for n, v in headers) + b'\n' + body.encode()
                   for headers, body in case['messages'])
    got = list(tokenize(from_bytes(data)))
    wanted = list(tokenize(from_bytes(other)))
    first = iter(tokenize(from_bytes(data)))
    tokens = []
    for token in first:
        tokens.append(token)
        same(list(tokenize(from_bytes(other))), wanted,
             'tokens of the message that interrupts')
    same(tokens, got, 'tokens of the interrupted message')
    return {'interrupted'} if set(got) & set(wanted) and len(got) > 12 and (
        got != wanted) else set()


def interleaved_strategy():
    header = st.tuples(
        st.sampled_from(['Received', 'Reply-To', 'To', 'Cc', 'From', 'Subject',
                         'Date', 'X-Mailer', 'Message-ID', 'MIME-Version',
                         'Organization', 'Content-Type', 'List-Id',
                         'Return-Path']),
        st.sampled_from(['a@b.test', 'Joe <joe@c.test>, x@y.test',
                         'some words', 'text/html; charset="utf-8"',
                         '=?utf-8?q?caf=C3=A9?=', '<1@z.test>',
                         'a-very-long-word-in-here']))
    body = st.lists(st.sampled_from(
        ['free', 'http://a.test/b', '<!-- x -->', '&#65;', 'longer-than-twelve',
         'a', '<style>x</style>', 'begin 644 x.y\nM123\nend\n',
         'joe@b.test']), max_size=4).map('\n'.join)
    message = st.tuples(st.lists(header, max_size=8), body)
    return st.fixed_dictionaries(dict(messages=st.tuples(message, message)))


OPTIONS = ['BASIC_HEADER_TOKENIZE', 'BASIC_HEADER_TOKENIZE_ONLY',
           'CHECK_OCTETS', 'X_SHORT_RUNS', 'IMAGE_SIZE',
           'COUNT_ALL_HEADER_LINES', 'RECORD_HEADER_ABSENCE',
           'MINE_RECEIVED_HEADERS', 'X_MINE_NNTP_HEADERS',
           'SUMMARIZE_EMAIL_PREFIXES', 'SUMMARIZE_EMAIL_SUFFIXES',
           'X_SEARCH_FOR_HABEAS_HEADERS', 'X_REDUCE_HABEAS_HEADERS',
           'REPLACE_NONASCII_CHARS', 'GENERATE_LONG_SKIPS',
           'strippers.X_PICK_APART_URLS', 'strippers.FANCY_URL_RECOGNITION']
ARGUMENTS = ['basic_header_tokenize', 'basic_header_tokenize_only']


def check_options(case):
    """The same with any options."""
    from sbclassifier import strippers, tokenizer
    from sbclassifier.message import from_bytes
    labels = set()
    modules = {tokenizer: {}, strippers: {}}
    for name in case['options']:
        module = tokenizer
        if '.' in name:
            module, name = strippers, name.split('.')[1]
        if hasattr(module, name):
            modules[module][name] = not getattr(module, name)
    data = case['data']
    arguments = dict.fromkeys(case['arguments'], True)
    with patched(tokenizer, **modules[tokenizer]), \
            patched(strippers, **modules[strippers]), \
            Resolver({}, {}).installed():
        message = from_bytes(data)
        before = picture(message)
        # Some options are looked at when a tokenizer or stripper is made.
        tokenize = tokenizer.Tokenizer()
        got = list(tokenize(message, **arguments))
        check_tokens(got, 'tokens with %s' % case['options'])
        same(picture(message), before, 'the tokenized message')
        same(list(tokenize(message, **arguments)), got,
             'tokens of the same message again')
        same(list(tokenizer.Tokenizer()(from_bytes(data), **arguments)), got,
             'tokens of the message parsed again, by another tokenizer')
        stripper = strippers.URLStripper()
        text = data.lower()
        rest, tokens = stripper.analyze(text)
        ensure(type(rest) is bytes, 'the rest is not bytes: {}', rest)
        same(strippers.URLStripper().analyze(text), (rest, tokens),
             'result of another stripper')
    if got:
        labels.add('tokens')
    return labels


def text_strategy():
    piece = st.one_of(
        st.text(st.characters(exclude_categories=['Cs']), max_size=6),
        st.sampled_from(
            ['Subject: ', 'From: ', '\n', '\n\n', '\udc80', '\udce9',
             '\U0001f4b0', '\u00e9', 'Content-Type: text/plain; charset=utf-8',
             'Content-Transfer-Encoding: base64\n', 'To: ', ' <', '>', '\0',
             '\u2028', '\x85', 'Message-ID: <', '@', 'http://', '&#', ';',
             'Content-Type: text/html\n', 'Content-Disposition: x; filename=']))
    return st.fixed_dictionaries(dict(
        text=st.lists(piece, max_size=12).map(''.join)))


def check_repeated(case):
    """What is repeated very often, or nested very deeply."""
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    piece, value = b''.join(case['pieces']), case['start']
    value += piece * case['times'] + case['end']
    value = b'\n '.join(line.strip(b'\r\n') for line in value.split(b'\n ')
                        if line.strip())
    if case['header'] is None:
        # So many parts within each other.
        data = b''
        for i in range(case['times'] // 20):
            data += (b'Content-Type: message/rfc822\n\n' if i % 3 == 0 else
                     b'Content-Type: multipart/mixed; boundary="b%d"\n\n'
                     b'--b%d\n' % (i, i))
        data += b'Subject: ' + value + b'\n\nhello\n'
    else:
        data = b'%s: %s\n\nhello\n' % (case['header'].encode(), value)
    message = from_bytes(data)
    got = list(tokenize(message))
    check_tokens(got, 'tokens')
    same(list(tokenize(message)), got, 'tokens of the same message again')
    ensure(b'hello' in got, 'the word of the text is not in {}', got[-5:])
    return {'parts' if case['header'] is None else 'header'}


def repeated_strategy():
    from props.c32 import HEADER_PIECES, HEADERS
    piece = st.sampled_from(HEADER_PIECES)
    return st.fixed_dictionaries(dict(
        header=st.sampled_from(HEADERS + [None, 'Content-Type',
                                          'Content-Disposition']),
        start=st.one_of(st.just(b''), piece),
        pieces=st.lists(piece, min_size=1, max_size=2),
        end=st.one_of(st.just(b''), piece),
        times=st.sampled_from([20, 100, 4000])))


def each_repeated():
    from props.c32 import HEADER_PIECES, HEADERS
    return [dict(header=h, start=b'', pieces=[p], end=b'', times=4000)
            for h in HEADERS for p in HEADER_PIECES]


# -- messages that were not parsed, but made by a program -------------------

def construct(node):
    """Returns a message, and whether it is one that is written as it is."""
    from email.header import Header
    from email.message import EmailMessage, Message
    from sbclassifier.message import Message as OwnMessage
    message = {'plain': Message, 'modern': EmailMessage,
               'own': OwnMessage}[node['class']]()
    simple = node['class'] != 'modern'
    for name, kind, value in node['headers']:
        if kind != 'text':
            value = Header(value, kind)
        simple = simple and kind == 'text' and value.isascii()
        try:
            message[name] = value
        except (AttributeError, TypeError, ValueError):
            # The email package refuses some headers, and a second Subject.
            continue
    kind, payload = node['payload']
    if kind == 'parts':
        for part in payload:
            part, part_simple = construct(part)
            simple = simple and part_simple
            if message.get_payload() is None or isinstance(
                    message.get_payload(), list):
                message.attach(part)
        simple = (simple and payload
                  and message.get_content_maintype() == 'multipart')
    elif kind == 'charset':
        message.set_payload(payload, 'utf-8')
    elif kind == 'bytes':
        message.set_payload(payload.encode('utf-8'))
        simple = simple and payload.isascii()
    elif kind == 'text':
        message.set_payload(payload)
        simple = simple and payload.isascii()
    else:
        simple = False
    if kind in ('bytes', 'text', 'charset'):
        simple = simple and message.get_content_maintype() != 'message'
    return message, simple


def check_built(case):
    from sbclassifier import Classifier
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    labels = set()
    message, simple = construct(case['message'])
    before = picture(message)
    got = list(tokenize(message))
    check_tokens(got, 'tokens')
    same(picture(message), before, 'the tokenized message')
    same(list(tokenize(message)), got, 'tokens of the same message again')
    same(list(tokenize(construct(case['message'])[0])), got,
         'tokens of the message made again')
    if simple:
        same(set(tokenize(from_bytes(message.as_bytes()))), set(got),
             'tokens of the message, written and parsed')
        labels.add('written')
    if case['message']['class'] == 'modern':
        labels.add('modern')
    if case['message']['payload'][0] == 'parts':
        labels.add('parts')
    c = Classifier()
    c.learn(tokenize(message), True)
    c.unlearn(tokenize(message), True)
    same(c.wordinfo, {}, 'known tokens once unlearned')
    return labels


def built_strategy():
    word = st.sampled_from(['free', 'cash', 'w\u00f6rld', 'a@b.test',
                            'J\u00f6 <j@b.test>', 'x', 'longer-than-twelve',
                            '<a@b.test>', 'http://a.test/x'])
    header = st.one_of(
        st.tuples(st.sampled_from(
            ['Subject', 'From', 'To', 'Cc', 'Reply-To', 'X-Mailer',
             'Message-ID', 'Received', 'Organization', 'Date', 'Sender']),
            st.sampled_from(['text', 'text', 'text', 'utf-8', 'us-ascii',
                             'iso-8859-1']),
            st.lists(word, max_size=3).map(' '.join)),
        st.sampled_from([
            ('Content-Type', 'text', 'text/html'),
            ('Content-Type', 'text', 'text/plain; charset="utf-8"'),
            ('Content-Type', 'text', 'image/png; name="a.b.png"'),
            ('Content-Type', 'text', 'application/octet-stream'),
            ('Content-Type', 'text', 'w\u00f6rld'),
            ('Content-Disposition', 'text', 'attachment; filename="a.exe"'),
            ('Content-Disposition', 'utf-8', 'w\u00f6rld'),
            ('Content-Transfer-Encoding', 'text', '8bit')])).filter(
                lambda h: h[1] != 'us-ascii' or h[2].isascii())
    text = st.lists(st.one_of(word, st.sampled_from(
        ['&#65;', '<b>', '<!-- x', '\n', 'begin 644 x.y\nM12\nend\n'])),
        max_size=6).map(' '.join)
    payload = st.one_of(
        st.tuples(st.sampled_from(['text', 'text', 'charset', 'bytes']), text),
        st.just(('none', None)))
    kinds = st.sampled_from(['plain', 'own', 'modern'])
    leaf = st.fixed_dictionaries({
        'class': kinds, 'headers': st.lists(header, max_size=4),
        'payload': payload})

    def container(parts):
        multipart = st.sampled_from([
            ('Content-Type', 'text', t) for t in (
                ['multipart/mixed', 'multipart/alternative'] * 4
                + ['text/plain', 'message/rfc822', 'image/gif'])])
        return st.fixed_dictionaries({
            'class': kinds,
            'headers': st.builds(
                lambda h, hs: [h] + [x for x in hs if not x[0].startswith(
                    'Content-')], multipart, st.lists(header, max_size=3)),
            'payload': st.tuples(st.just('parts'),
                                 st.lists(parts, max_size=3))})
    return st.fixed_dictionaries(dict(message=st.recursive(
        leaf, container, max_leaves=5)))


GROUPS = [
    Group('built', built_strategy, check_built, 1500, 50000,
          nontrivial=['parts', 'modern', 'written'],
          rule='Messages that were not parsed but put together from headers '
               '(text or Header objects) and text, bytes, other messages or '
               'nothing, of three classes; simple ones have the same tokens '
               'once written and parsed; non-trivial if such a one, or with '
               'parts, or of the modern class.'),
    Group('repeated', repeated_strategy, check_repeated, 300, 15000,
          nontrivial=['parts', 'header'], fixed=each_repeated,
          rule='A header that repeats up to two pieces (also ones that nest) '
               'up to 4000 times, or parts nested 200 levels deep; every '
               'case is non-trivial.'),
    Group('bytes', lambda: st.fixed_dictionaries(dict(
        data=st.one_of(mail.raw_messages(), mail.raw_messages(),
                       mail.simple_messages()),
        other=mail.simple_messages(),
        steps=st.lists(st.integers(0, 9), max_size=6))), check, 4000, 200000,
          nontrivial=['defects', 'parts', 'control', '8bit'],
          rule='Arbitrary bytes, and fragments of headers, encoded words, '
               'MIME structure, markup and encodings put together; tokens '
               'must be bytes and always the same, the message unchanged, '
               'and training and scoring possible; non-trivial if the '
               'message has MIME defects, parts or 8-bit characters.'),
    Group('interleaved', interleaved_strategy, check_interleaved, 2000, 60000,
          nontrivial=['interrupted'],
          rule='Two messages with repeated headers; before each token of the '
               'one, the other is tokenized; non-trivial if they have some '
               'tokens in common and the first has more than twelve.'),
    Group('options', lambda: st.fixed_dictionaries(dict(
        data=st.one_of(mail.raw_messages(), mail.odd_messages()),
        arguments=st.lists(st.sampled_from(ARGUMENTS), max_size=2,
                           unique=True),
        options=st.lists(st.sampled_from(OPTIONS), max_size=8,
                         unique=True))), check_options, 2400, 100000,
          nontrivial=['tokens'],
          rule='The same messages with any set of options of the tokenizer '
               '(and no DNS); non-trivial if there are tokens.'),
    Group('text', text_strategy, check_text, 1200, 50000,
          nontrivial=['text'],
          rule='Arbitrary text given as str; non-trivial if it is not ASCII.'),
]
ASSUMPTIONS = ['text contains no surrogates but those that stand for bytes '
               '(errors="surrogateescape")']
