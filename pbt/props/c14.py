"""C14: the headers of a message become the documented tagged tokens."""
import base64
import quopri

import mail
from lib import Group, diff_sets, ensure, same
from hypothesis import strategies as st
from tokens import header_tokens, parts_of


def encoded_word(text, charset, how):
    data = text.encode(charset)
    if how == 'b':
        body = base64.b64encode(data).decode()
    else:
        body = ''.join(chr(c) if chr(c).isalnum() and c < 128
                       else '=%02X' % c for c in data)
    return '=?%s?%s?%s?=' % (charset, how, body)


def address_header(entries):
    """The value of an address header with (name, address) entries."""
    result = []
    for name, address in entries:
        if not name:
            result.append('<%s>' % address if len(result) % 2 else address)
        elif any(c in name for c in '.@!()') and not name.startswith('=?'):
            result.append('"%s" <%s>' % (name, address))
        else:
            result.append('%s <%s>' % (name, address))
    return result


def build(case):
    """Returns the message and, for the address headers, their entries."""
    headers, addresses = [], {}
    for kind, name, value in case['headers']:
        if kind == 'address':
            entries = address_header(value)
            # Whether folded or not is the same.
            separator = ',\n ' if len(entries) % 3 == 2 else ', '
            headers.append([name, separator.join(entries)])
            addresses.setdefault(name.lower(), []).append(
                [tuple(e) for e in value])
        else:
            headers.append([name, value])
    return dict(headers=headers, body=case['body']), addresses


def check(case):
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    message, addresses = build(case)
    got = list(tokenize(from_bytes(mail.build(message))))
    ensure(all(type(t) is bytes for t in got), 'tokens that are not bytes')
    diff_sets(got, header_tokens(message, addresses), 'tokens')
    labels = set()
    names = [h[0].lower() for h in message['headers']]
    for name in ('subject', 'from', 'to', 'message-id', 'x-mailer'):
        if name in names:
            labels.add(name)
    if len(set(names)) < len(names):
        labels.add('repeated header')
    if any(isinstance(h[1], bytes) and not h[1].isascii()
           for h in message['headers']):
        labels.add('raw 8bit')
    if any(isinstance(h[1], str) and '=?' in h[1]
           for h in message['headers']):
        labels.add('encoded word')
    if case['body']:
        labels.add('content')
        for part in parts_of(message):
            if part.get('typeparam'):
                labels.add('type parameter')
            if (part.get('form') not in (None, 'quoted')
                    and (part.get('name') or part.get('filename'))):
                labels.add('encoded file name')
    return labels


WORDS = ['Free', 'MONEY', 'the', 'a', 'to', '$100.00', '50%', 'x' * 12,
         'y' * 13, 'Z' * 25, 'joe@spam.example', 'hello_world', '3.14',
         'bob.smith.the.third@example.org', "don't", 'RE:', '[list]', '!!!',
         '--', 'caf\u00e9', '\u0416\u042f', '\u00a3100', '\u2603']
KINDS = sorted(f(n) for n in [
    'Date', 'Received', 'User-Agent', 'Organization', 'Mime-Version',
    'Return-Path', 'In-Reply-To', 'X-Complaints-To', 'Errors-To',
    'Importance', 'Abuse-Reports-To', 'X-Abuse-Info', 'X-Unsafe']
    for f in (str, str.lower, str.upper))
NAMES = ['Bob', 'Joe Spam', 'JOE', 'Dr. Who', 'A. B. (C)', 'spam!']


def strategy():
    @st.composite
    def subjects(draw):
        kind = draw(st.integers(0, 5))
        words = draw(st.lists(st.sampled_from(WORDS), max_size=6))
        text = draw(st.sampled_from([' ', '  ', '\t'])).join(words)
        plain = text.encode('ascii', 'ignore').decode().strip()
        if kind <= 2:
            return plain
        if kind == 3:
            return text.encode('utf-8').strip()
        charset, codec = draw(st.sampled_from([
            ('utf-8', None), ('UTF-8', None), ('koi8-r', None),
            ('iso-8859-1', None), ('us-ascii', None), ('cp1252', None)]))
        text = text.encode(charset, 'ignore').decode(charset)
        word = encoded_word(text or 'x', charset,
                            draw(st.sampled_from(['q', 'b', 'Q'.lower()])))
        if kind == 4:
            return word
        return (plain + ' ' + word + draw(st.sampled_from(['', ' tail']))
                ).strip()

    # Several encoded words, with plain words between.
    several = st.lists(st.one_of(
        st.sampled_from(['Bob', 'van', 'JOE']),
        st.builds(encoded_word, st.sampled_from(['Ren\u00e9', 'Bob', '\u00c9a']),
                  st.sampled_from(['utf-8', 'iso-8859-1', 'cp1252']),
                  st.sampled_from(['q', 'b']))),
        min_size=2, max_size=6).map(' '.join)
    name = st.one_of(
        st.just(''), st.sampled_from(NAMES), several,
        st.builds(encoded_word, st.sampled_from(['Caf\u00e9', 'Bob', '\u00c9a']),
                  st.sampled_from(['utf-8', 'iso-8859-1']),
                  st.sampled_from(['q', 'b'])))
    address = st.sampled_from(['a@b.example', 'Joe@Spam.TEST', 'x+y@h.example',
                               'root@localhost', 'a.b.c@d.e.f.g'])
    entries = st.one_of(
        st.lists(st.tuples(name, address), min_size=1, max_size=7),
        st.sampled_from([1, 2, 3, 5, 6, 11, 12, 23, 24, 91]).map(
            lambda n: [['', 'u%d@many.example' % i] for i in range(n)]))
    address_names = st.sampled_from(['From', 'To', 'to', 'TO', 'Cc', 'CC',
                                     'Sender', 'Reply-To', 'reply-to'])
    header = st.one_of(
        st.tuples(st.just('address'), address_names, entries),
        st.tuples(st.just('address'), address_names, entries),
        st.tuples(st.just('plain'), st.sampled_from(['Subject', 'SUBJECT']),
                  subjects()),
        st.tuples(st.just('plain'), st.sampled_from(['X-Mailer', 'x-mailer']),
                  st.sampled_from(['Mutt 1.0', 'The   BAT!\tv2', 'x', '', ' '])),
        st.tuples(st.just('plain'), st.sampled_from(['Message-ID',
                                                     'Message-Id']),
                  st.sampled_from(['<1@host.example>', ' <a.b$c@H>  ',
                                   '<nohost>', 'naked@host', '<@host>',
                                   '<a@>', ''])),
        st.tuples(st.just('plain'), st.sampled_from(
            ['Date', 'date', 'Received', 'received', 'X-Face', 'User-Agent',
             'Organization', 'MIME-Version', 'Mime-Version', 'Return-Path',
             'X-Unsafe', 'List-Id', 'In-Reply-To', 'References',
             'X-Complaints-To', 'Errors-To', 'Importance', 'Abuse-Reports-To',
             'X-Abuse-Info']), st.sampled_from(['x', 'some words here',
                                                b'caf\xe9'])))

    filename = st.sampled_from(['a.txt', 'Invoice.PDF.exe', 'C:\\dir\\x.scr',
                                '/tmp/a b.c', 'plain', 'a@b;c=d'])

    types = st.sampled_from(['text/html', 'Text/HTML', 'multipart/x', 'x'])
    forms = st.sampled_from(['quoted', 'quoted', 'extended', 'continued'])

    @st.composite
    def leaf(draw):
        part = dict(type=draw(st.sampled_from(
            ['text/plain', 'text/html', 'TEXT/Html', 'image/gif',
             'application/octet-stream', 'application/x-Foo'])), text='')
        if draw(st.booleans()):
            part['charset'] = draw(st.sampled_from(
                ['us-ascii', 'UTF-8', 'iso-8859-1', 'x-unknown', 'Big5']))
            part['codec'] = 'ascii'
        if draw(st.integers(0, 2)) == 0:
            part['name'] = draw(filename)
        if draw(st.booleans()):
            part['disposition'] = draw(st.sampled_from(
                ['attachment', 'inline', 'Attachment']))
            if draw(st.booleans()):
                part['filename'] = draw(filename)
        if draw(st.integers(0, 3)) == 0:
            part['typeparam'] = draw(types)
        part['form'] = draw(forms)
        if part['form'] == 'extended':
            # Any character can be in an encoded name.
            for k in ('name', 'filename'):
                if k in part and draw(st.booleans()):
                    part[k] = draw(st.sampled_from(
                        ['caf\u00e9.txt', '\u2603', 'a%20b.EXE', "it's.x"]))
        # A backslash quotes the character that follows.
        for k in ('name', 'filename'):
            if '\\' in part.get(k, ''):
                del part[k]
        return part

    body = st.one_of(
        st.none(), st.recursive(leaf(), lambda p: st.one_of(
            st.fixed_dictionaries(dict(
                multipart=st.sampled_from(['mixed', 'alternative',
                                           'related']),
                typeparam=st.one_of(st.none(), types), form=forms,
                parts=st.lists(p, min_size=1, max_size=3))),
            p.map(lambda b: dict(rfc822=dict(
                headers=[['Subject', 'inner words']], body=b)))),
            max_leaves=4))

    def unique(headers):
        """Only address headers and those that are counted may be repeated."""
        result, seen = [], set()
        for kind, name, value in headers:
            if kind == 'plain' and name.lower() in ('subject', 'x-mailer',
                                                    'message-id'):
                if name.lower() in seen:
                    continue
                seen.add(name.lower())
            result.append([kind, name, value])
        return result

    return st.fixed_dictionaries(dict(
        headers=st.one_of(
            st.lists(header, max_size=7), st.lists(header, max_size=7),
            st.lists(header, max_size=7), st.lists(header, max_size=7),
            # Many kinds of headers.
            st.tuples(st.lists(header, max_size=3), st.permutations(
                [['plain', n, 'x'] for n in KINDS])).map(
                lambda t: t[0] + t[1]),
            # Many lines of the same header.
            st.tuples(header, st.sampled_from([20, 70])).map(
                lambda t: [t[0]] * t[1])).map(unique), body=body))


# -- a lot of it ------------------------------------------------------------

def check_large(case):
    headers = []
    for kind, name, value in case['headers']:
        n = case['n']
        if kind == 'address':
            value = [['%s%d' % (a, i) if a.isalpha() and a else a,
                      '%d%s' % (i, b)] for i in range(n) for a, b in value]
            if case['lines']:
                headers.extend([kind, name, [v]] for v in value)
                continue
        elif name.lower() == 'subject' and isinstance(value, str):
            value = '\n '.join('%s w%d' % (value, i) for i in range(n)).strip()
        elif name.lower() not in ('subject', 'x-mailer', 'message-id'):
            headers.extend([[kind, name, value]] * n)
            continue
        headers.append([kind, name, value])
    labels = check(dict(case, headers=headers))
    if case['n'] >= 100:
        labels.add('large')
    return labels


def large_strategy():
    return st.builds(
        lambda case, n, lines: dict(case, headers=[
            h for h in case['headers'] if '=?' not in str(h)][:3], n=n,
            lines=lines),
        strategy().filter(lambda c: len(c['headers']) < 9 and not any(
            h[0] == 'address' and len(h[2]) > 9 for h in c['headers'])),
        st.sampled_from([2, 30, 100, 300, 1000]), st.booleans())


GROUPS = [
    Group('headers', strategy, check, 3000, 120000,
          nontrivial=['subject', 'from', 'to', 'message-id', 'x-mailer',
                      'content', 'repeated header'],
          rule='A message without text, with well-formed headers (subjects '
               'and names as plain text, encoded words or raw 8-bit text, '
               'long address lists, repeated headers of different case) and '
               'parts of several types, character sets and file names; its '
               'tokens must be exactly the documented ones; non-trivial if '
               'it has a header or part that is looked at.'),
    Group('large', large_strategy, check_large, 100, 2500,
          nontrivial=['large'],
          rule='Up to 1000 copies of header lines, addresses and words of '
               'the subject; non-trivial from 100 on.'),
]
ASSUMPTIONS = ['well-formed headers; no commas in display names',
               'the default options']
