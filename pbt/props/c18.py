"""C18: the text of a message is the same message with CRLF line endings."""
import email
import email.generator
import io
import os
import re

import mail
from lib import Group, ensure, same, scratch
from hypothesis import strategies as st


def newlines(data):
    return data.replace(b'\r\n', b'\n').replace(b'\r', b'\n')


def unmangled(data):
    return re.sub(br'(?m)^>From ', b'From ', data)


def unfold(value):
    if not isinstance(value, str):
        value = value.encode()
    return re.sub(r'\s+', ' ', value.strip())


IGNORED = ('content-transfer-encoding',)


def structure(message):
    """The headers in order; but a Content-Type header may move."""
    result = []
    for part in message.walk():
        headers = [(k.lower(), unfold(v)) for k, v in part.raw_items()
                   if k.lower() not in IGNORED]
        result.append((part.get_content_type(),
                       [h for h in headers if h[0] != 'content-type'],
                       [h for h in headers if h[0] == 'content-type']))
    return result


def payloads(message):
    return [part.get_payload(decode=True) for part in message.walk()
            if not part.is_multipart()]


def check(case):
    from sbclassifier.message import from_bytes, from_path, from_string
    labels = set()
    data = mail.build(case['message'])
    if case['crlf']:
        data = data.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
    expected = [newlines(mail.leaf_bytes(leaf))
                for leaf in mail.leaves(case['message']['body'])]
    if case['from_text'] and data.isascii():
        message = from_string(data.decode('ascii'), case['id'])
        labels.add('from text')
    elif case['from_text']:
        with scratch() as directory:
            path = os.path.join(directory, 'm')
            with open(path, 'wb') as f:
                f.write(data)
            message = from_path(path, case['id'])
    else:
        message = from_bytes(data, case['id'])
    before = message.as_bytes()
    shape = structure(message)
    arguments = {}
    if case['unixfrom'] is not None:
        arguments['unixfrom'] = case['unixfrom']
    if case['mangle'] is not None:
        arguments['mangle_from_'] = case['mangle']
    text = message.as_string(**arguments)
    ensure(isinstance(text, str), 'not a str: {}', text)
    rest = text.replace('\r\n', '')
    ensure('\n' not in rest and '\r' not in rest,
           'a line does not end with CRLF in {}', text)
    lines = text.split('\r\n')
    if case['unixfrom']:
        ensure(lines[0].startswith('From '), 'no From line: {}', lines[0])
        del lines[0]
    else:
        ensure(not lines[0].startswith('From '), 'a From line: {}', lines[0])
    if case['mangle'] is not False:
        ensure(not any(line.startswith('From ') for line in lines),
               'a From line is not mangled in {}', text)
    same(message.as_bytes(), before, 'the message, once written')
    same(message.id(), case['id'], 'identifier')
    again = message.as_string(**arguments)
    if case['unixfrom']:
        # The From line has the current time.
        same(again.split('\r\n', 1)[1], text.split('\r\n', 1)[1],
             'the text written again')
    else:
        same(again, text, 'the text written again')
    # Whoever receives it reads the same message.
    received = from_bytes('\r\n'.join(lines).encode('ascii',
                                                    'surrogateescape'))
    same(structure(received), shape, 'structure of the received message')
    got = [newlines(p) for p in payloads(received)]
    if case['mangle'] is not False:
        if got != expected:
            labels.add('mangled')
        got = [unmangled(p) for p in got]
        expected = [unmangled(p) for p in expected]
    same(got, expected, 'content of the received message')
    if len(expected) > 1:
        labels.add('parts')
    if any(b'\n' in e for e in expected):
        labels.add('lines')
    if any(not e.isascii() for e in expected):
        labels.add('8bit')
    return labels


def check_raw(case):
    """The text is what the email package makes of the message, with CRLF."""
    from sbclassifier.message import from_bytes
    data = case['data']
    message = from_bytes(data)
    out = io.StringIO()
    try:
        plain = email.message_from_bytes(data)
        email.generator.Generator(out, mangle_from_=case['mangle']).flatten(
            plain, case['unixfrom'])
    except Exception:
        return {'not written'}
    got = message.as_string(case['unixfrom'], case['mangle'])
    if case['unixfrom'] and message.get_unixfrom() is None:
        # The From line has the current time.
        got = got.split('\r\n', 1)[1]
        out = io.StringIO(out.getvalue().split('\n', 1)[1], newline='')
    same(got, re.sub('\r\n|\r|\n', '\r\n', out.getvalue()), 'text')
    labels = {'written'}
    if message.defects or any(p.defects for p in message.walk()):
        labels.add('defects')
    if message.is_multipart():
        labels.add('parts')
    return labels


def check_modified(case):
    """The text is that of the message as it is, after any changes to it."""
    from sbclassifier.message import from_bytes
    labels = set()
    data = mail.build(case['message'])
    message, plain = from_bytes(data), email.message_from_bytes(data)
    for op, name, value, which in case['ops']:
        def change(m):
            parts = list(m.walk())
            part = parts[which % len(parts)]
            if op == 'set':
                del part[name]
                part[name] = value
            elif op == 'add':
                m[name] = value
            elif op == 'delete':
                del part[name]
            elif op == 'replace' and name in part:
                part.replace_header(name, value)
            elif op == 'payload' and not part.is_multipart():
                del part['Content-Transfer-Encoding']
                part.set_payload(value + '\nsome text\n')
            elif op == 'attach' and part.is_multipart() and (
                    part.get_content_maintype() == 'multipart'):
                other = email.message_from_string('X-New: 1\n\n%s\n' % value)
                part.attach(other)
            elif op == 'drop' and part.is_multipart() and len(
                    part.get_payload()) > 1:
                del part.get_payload()[-1]
            elif op == 'boundary' and part.get_boundary():
                part.set_boundary('changed')
            elif op == 'preamble' and part.is_multipart():
                part.preamble = value
            elif op == 'from':
                m.set_unixfrom('From %s now' % value)
            else:
                return False
            return True
        if op == 'text':
            pass
        elif not change(plain):
            continue
        else:
            change(message)
            labels.add('changed')
        out = io.StringIO()
        email.generator.Generator(out, mangle_from_=True).flatten(
            plain, bool(plain.get_unixfrom()))
        got = message.as_string(bool(message.get_unixfrom()))
        same(got, re.sub('\r\n|\r|\n', '\r\n', out.getvalue()),
             'text after %s %s' % (op, name))
        same(message.as_bytes(), plain.as_bytes(), 'bytes after ' + op)
    return labels


def modified_strategy(messages):
    op = st.tuples(
        st.sampled_from(['set', 'set', 'add', 'delete', 'replace', 'payload',
                         'payload', 'attach', 'drop', 'boundary', 'preamble',
                         'from', 'text']),
        st.sampled_from(['Subject', 'X-New', 'From', 'To']),
        st.sampled_from(['a', 'b', 'other text', 'From me', 'x@y.example']),
        st.integers(0, 5))
    return st.fixed_dictionaries(dict(
        message=messages, ops=st.lists(op, min_size=1, max_size=6)))


def message_strategy():
    line = st.sampled_from(['hello', '', 'From here', '>From x', '.',
                            'caf\u00e9 \u20ac', 'x' * 90, ' lead', 'a=b=20',
                            '--', 'Subject: x'])
    text = st.lists(line, max_size=5).map('\n'.join)

    @st.composite
    def leaf(draw):
        t = draw(text)
        charset = draw(st.sampled_from([None, 'us-ascii', 'utf-8',
                                        'iso-8859-15']))
        if charset in (None, 'us-ascii'):
            t = t.encode('ascii', 'ignore').decode()
        cte = draw(st.sampled_from([None, '8bit', 'base64',
                                    'quoted-printable']))
        if charset == 'us-ascii' and cte == '8bit':
            cte = '7bit'
        result = dict(type=draw(st.sampled_from(['text/plain', 'text/html',
                                                 'application/x-y'])),
                      charset=charset, cte=cte, text=t)
        if cte == 'base64' and draw(st.booleans()):
            del result['text']
            result['data'] = draw(st.binary(max_size=20))
        if result['type'] == 'application/x-y':
            result['charset'] = None
            if 'text' in result:
                result['text'] = t.encode('ascii', 'ignore').decode()
            result.update(disposition='attachment', filename='a.bin')
        return result

    @st.composite
    def top(draw):
        headers = [['Subject', draw(st.sampled_from(
            ['x', 'long ' * 30 + 'end', '=?utf-8?b?w6k=?=', 'From me']))],
            ['From', 'a@b.example']]
        if draw(st.booleans()):
            headers.append(['X-Folded', 'one\n two\n\tthree'])
        body = draw(st.recursive(
            leaf(), lambda p: st.one_of(
                st.fixed_dictionaries(dict(
                    multipart=st.sampled_from(['mixed', 'alternative']),
                    parts=st.lists(p, min_size=1, max_size=3))),
                p.map(lambda b: dict(rfc822=dict(
                    headers=[['Subject', 'inner']], body=b)))),
            max_leaves=4))
        return dict(headers=headers, body=body)
    return top()


def strategy():
    return st.fixed_dictionaries(dict(
        message=message_strategy(), crlf=st.booleans(), from_text=st.booleans(),
        id=st.sampled_from([None, 'x1']),
        unixfrom=st.sampled_from([None, False, True]),
        mangle=st.sampled_from([None, False, True])))


GROUPS = [
    Group('text', strategy, check, 1800, 60000,
          nontrivial=['lines', 'parts', '8bit'],
          rule='A message of text and binary parts, nested, in several '
               'transfer encodings and character sets, with LF or CRLF line '
               'endings; its text must consist of CRLF lines, and read back '
               'as the same headers, structure and content; non-trivial if '
               'there are several lines or parts, or non-ASCII text.'),
    Group('raw', lambda: st.fixed_dictionaries(dict(
        data=mail.raw_messages(), mangle=st.booleans(),
        unixfrom=st.booleans())), check_raw, 1600, 60000,
          nontrivial=['defects', 'parts'],
          rule='Messages however malformed; the text must be what the email '
               'package itself makes of it, with CRLF line endings; '
               'non-trivial if the message has MIME defects or parts.'),
    Group('modified', lambda: modified_strategy(message_strategy()),
          check_modified, 600, 20000, nontrivial=['changed'],
          rule='A message of which headers, payloads, parts and boundaries '
               'are changed; after each change its text must be that of a '
               'message of the email package that was changed alike; '
               'non-trivial if something is changed.'),
]
ASSUMPTIONS = ['well-formed messages']
