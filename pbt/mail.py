"""Messages as plain data, their bytes, and strategies for them.

A message is {'headers': [[name, value]...], 'body': part} where a value is
str (ASCII) or bytes. A part is a leaf {'type', 'charset', 'cte', 'text'
(str) or 'data' (bytes), 'filename', 'disposition', 'extra'} or
{'multipart': subtype, 'parts': [...], 'preamble'} or {'rfc822': message}.
"""
import base64
import quopri
import re
import urllib.parse

from hypothesis import strategies as st


def encode_body(data, cte):
    if cte == 'base64':
        return base64.encodebytes(data)
    if cte == 'quoted-printable':
        # A CR that is not part of a line end would become one if the next
        # line end followed it.
        return re.sub(br'\r(?!\n)', b'=0D', quopri.encodestring(data))
    return data


def leaf_bytes(leaf):
    if 'data' in leaf:
        return leaf['data']
    return leaf['text'].encode(leaf.get('codec') or leaf.get('charset')
                               or 'ascii')


def parameter(part, name, value):
    """A parameter of a header, in one of the forms of RFC 2231."""
    form = part.get('form') or 'quoted'
    if form == 'quoted':
        return '; %s="%s"' % (name, value)
    quoted = urllib.parse.quote(value, safe='', encoding='utf-8')
    if form == 'extended':
        return "; %s*=UTF-8''%s" % (name, quoted)
    half = len(value) // 2
    return "; %s*0=\"%s\"; %s*1=\"%s\"" % (name, value[:half], name,
                                           value[half:])


def disposition(part):
    value = part['disposition']
    if part.get('filename'):
        value += parameter(part, 'filename', part['filename'])
    return value


def part_headers(part, boundary):
    lines = []
    if 'multipart' in part:
        line = ('Content-Type: multipart/%s; boundary="%s"'
                % (part['multipart'], boundary))
        if part.get('typeparam'):
            line += parameter(part, 'type', part['typeparam'])
        lines.append(line)
    elif 'rfc822' in part:
        lines.append('Content-Type: message/rfc822')
    else:
        if part.get('type'):
            line = 'Content-Type: ' + part['type']
            if part.get('charset'):
                line += '; charset="%s"' % part['charset']
            if part.get('name'):
                line += parameter(part, 'name', part['name'])
            if part.get('typeparam'):
                line += parameter(part, 'type', part['typeparam'])
            lines.append(line)
        if part.get('cte'):
            lines.append('Content-Transfer-Encoding: ' + part['cte'])
        if part.get('disposition'):
            lines.append('Content-Disposition: ' + disposition(part))
    return [line.encode('latin-1') for line in lines]


def part_body(part, boundary):
    if 'multipart' in part:
        result = [part.get('preamble', '').encode()]
        for i, child in enumerate(part['parts']):
            inner = '%s.%d' % (boundary, i)
            result.append(b'\n--%s\n' % boundary.encode())
            for line in part_headers(child, inner):
                result.append(line + b'\n')
            result.append(b'\n')
            result.append(part_body(child, inner))
        result.append(b'\n--%s--\n' % boundary.encode())
        return b''.join(result)
    if 'rfc822' in part:
        return build(part['rfc822'], boundary + '.m')
    return encode_body(leaf_bytes(part), part.get('cte'))


def build(message, boundary='=_bnd'):
    lines = []
    for name, value in message['headers']:
        if isinstance(value, str):
            value = value.encode('ascii')
        lines.append(name.encode('ascii') + b': ' + value + b'\n')
    body = message.get('body')
    if body is None:
        return b''.join(lines) + b'\n'
    for line in part_headers(body, boundary):
        lines.append(line + b'\n')
    return b''.join(lines) + b'\n' + part_body(body, boundary)


def leaves(part):
    """The leaves in order, including those of attached messages."""
    if 'multipart' in part:
        for child in part['parts']:
            for leaf in leaves(child):
                yield leaf
    elif 'rfc822' in part:
        if part['rfc822'].get('body') is not None:
            for leaf in leaves(part['rfc822']['body']):
                yield leaf
    else:
        yield part


# -- strategies -------------------------------------------------------------

WORDS = ['free', 'money', 'Viagra', 'hello', 'meeting', 'tomorrow', 'report',
         'click', 'here', 'prize', 'the', 'and', 'unsubscribe', 'CASH', 'lunch',
         'python', 'dollars', 'win', 'now']


def words(max_size=12):
    return st.lists(st.sampled_from(WORDS), max_size=max_size)


def simple_messages(max_words=10):
    """Bytes of short well-formed messages that the email package writes as
    it reads them."""
    @st.composite
    def cases(draw):
        headers = [['From', draw(st.sampled_from(
                        ['a@example.com', 'Bob <bob@spam.test>',
                         '"C. D." <c@d.example>']))],
                   ['To', 'you@example.org']]
        if draw(st.booleans()):
            headers.append(['Subject', ' '.join(
                draw(words(5))) or 'x'])
        if draw(st.integers(0, 3)) == 0:
            headers.append(['X-Odd', draw(st.sampled_from(
                [b'caf\xe9 \xff', '=?utf-8?q?caf=C3=A9?=', 'folded\n value']))])
        text = ' '.join(draw(words(max_words)))
        kind = draw(st.integers(0, 5))
        if kind == 0:
            return build(dict(headers=headers)) + text.encode()
        if kind == 1:
            data = text.encode() + draw(st.sampled_from(
                [b'\n\xe9\xff\x80\n', b'\nFrom here\n>From\n', b'\n.\n\n',
                 b'\r\nx\r\n', b'\n\0\n']))
            return build(dict(headers=headers, body=dict(data=data)))
        if kind == 2:
            return build(dict(headers=headers, body=dict(
                multipart='mixed', parts=[
                    dict(type='text/plain', text=text),
                    dict(type='application/octet-stream', cte='base64',
                         data=text.encode(), disposition='attachment',
                         filename='a.txt')])))
        return build(dict(headers=headers, body=dict(
            type='text/' + ('html' if kind == 3 else 'plain'), text=text,
            cte=draw(st.sampled_from([None, '7bit', 'base64',
                                      'quoted-printable'])))))
    return cases()


# -- messages that are not well-formed --------------------------------------

HEADER_FRAGMENTS = [
    b'Subject: ', b'From: ', b'To: ', b'Cc: ', b'Reply-To: ', b'Sender: ',
    b'Message-ID: ', b'X-Mailer: ', b'Date: ', b'Received: from ',
    b'MIME-Version: 1.0\n', b'Content-Type: text/plain', b'Content-Type: ',
    b'Content-Type: text/html; charset=', b'Content-Type: multipart/mixed; '
    b'boundary="b"\n', b'Content-Type: multipart/mixed\n', b'Content-Type: '
    b'multipart/digest; boundary=b\n', b'Content-Type: message/rfc822\n',
    b'Content-Type: message/partial\n', b'Content-Type: message/delivery-status\n',
    b'Content-Transfer-Encoding: base64\n',
    b'Content-Transfer-Encoding: quoted-printable\n',
    b'Content-Transfer-Encoding: x-uuencode\n',
    b'Content-Transfer-Encoding: bogus\n',
    b'Content-Disposition: attachment; filename=', b'Content-Disposition: ',
    b"; filename*=utf-8''%e9%ff.txt\n", b"; filename*0=a; filename*1=b\n",
    b"; charset*=utf-8'en'us-ascii\n", b'; charset="', b'; type="text/html"\n',
    b"; type*=x'y'%ff\n", b"; name*=bogus'x'%e9\n", b'; name="a/b\\c.exe"\n',
    b'NNTP-Posting-Host: ', b'X-Habeas-SWE-1: ', b'X-Spambayes-MailId: ',
]
VALUE_FRAGMENTS = [
    b'\n', b'\n', b'\n', b'\r\n', b'\r', b'\n ', b'\n\t', b' ', b'\t', b', ',
    b';', b'"', b"'", b'(', b')', b'<', b'>', b'@', b':', b'\\', b'%', b'=',
    b'=?', b'?=', b'=?utf-8?q?', b'=?utf-8?b?', b'=?bogus?q?=E9?=',
    b'=?utf-8?b?4?=', b'=?utf-8?q?=ff?=', b'=?iso-2022-jp?b?GyRC?=',
    b'=?utf-16?b?AAA?=', b'=?utf-7?q?+2AA-?=', b'=?idna?q?xn--?=',
    b'a@b.example', b'Bob <bob@x.test>', b'<', b'group: a@b, c@d;', b'"Q, R" ',
    b'utf-8', b'us-ascii', b'bogus', b'utf-16', b'utf-7', b'idna', b'hex',
    b'rot13', b'unicode_escape', b'undefined', b'\0', b'\xe9', b'\xff\xfe',
    b'\xed\xa0\x80', b'\xf0\x9f\x92\xb0', b'\x80', b'word', b'x' * 13,
    b'x' * 70, b'Free MONEY!!', b'$1,000', b'http://a.b/c', b'begin 644 x\n',
    b'text/', b'/', b'multipart/mixed', b'boundary=b', b'message/rfc822',
]
BODY_FRAGMENTS = [
    b'\n\n', b'\n--b\n', b'\n--b--\n', b'\n--', b'<!--', b'-->', b'<style',
    b'<style>', b'</style>', b'<noframes>', b'</noframes>', b'<comment>',
    b'</comment>', b'<p>', b'<br>', b'&nbsp;', b'&#', b'&#97;', b'&#0;',
    b'&#55296;', b'&#1114112;', b'&#99999999999999999999;', b'<a href="',
    b'">', b'</a>', b'<script>', b'<iframe ', b'src=cid:', b'height="0',
    b'width=0', b'http://', b'https://', b'ftp://', b'HTTP://', b'www.x.test',
    b'http://[::1', b'http://user:pw@host:81/a?b=c&d=%41%42#e', b'%', b'%zz',
    b'http://1.2.3.4/', b'http://%%%', b'begin 644 a.txt\n', b'end\n',
    b'begin 644 \xe9\n', b'begin', b'M' * 61 + b'\n', b'VGVzdA==\n',
    b'dGVzdA==\n', b'dGVzdA', b'====\n', b'=3D', b'=\n', b'=E', b'=',
    b'From me\n', b'a b c d ', b'hello ', b'Content-Type: text/html\n\n',
]


# -- messages whose lines are headers, but odd ones -------------------------

HEADER_NAMES = ['Subject', 'From', 'To', 'Cc', 'Reply-To', 'Sender', 'Date',
                'Message-ID', 'X-Mailer', 'Received', 'X-Spambayes-MailId',
                'Content-Disposition', 'Content-Transfer-Encoding',
                'Content-Type', 'MIME-Version', 'NNTP-Posting-Host',
                'X-Habeas-SWE-1', 'X-Habeas-SWE-10', 'X-Odd', 'subject',
                'CONTENT-TYPE', 'Errors-To', 'User-Agent', 'X-\xa3', 'X Y']
PARAMETERS = ['charset', 'name', 'filename', 'boundary', 'type', 'x']
PARAMETER_VALUES = [
    b'', b'b', b'"b"', b'"', b'utf-8', b'"us-ascii"', b'bogus', b'\xe9\xff',
    b'a\0b', b"''", b"'''", b"utf-8''caf%C3%A9", b"utf-8'en'%ff%e9.txt",
    b"\xe9''x", b"a%00b''x%41", b"bogus''%e9", b"a\0b''%e9", b"utf-16''%41",
    b"idna''%ff", b"utf-7''%2b", b'=?utf-8?q?=C3=A9?=', b'=?a?b?c?=', b'a/b.c',
    b'"a;b=c"', b'"a\\"b"', b'x' * 80, b'hex', b'rot13', b'unknown-8bit',
    b"unicode_escape''%5cud800", b'utf-16', b'punycode', b'undefined',
    b"ascii''\xe9", b"us-ascii'x", b'%', b"''%ed%a0%80", b'mbcs', b'utf-7']
TYPES = [b'text/plain', b'text/html', b'TEXT/x', b'multipart/mixed',
         b'multipart/alternative', b'multipart/digest', b'multipart/',
         b'message/rfc822', b'message/partial', b'message/external-body',
         b'message/delivery-status', b'application/octet-stream', b'image/gif',
         b'image/png', b'text', b'', b'/', b'a/b/c', b'\xe9/\xff', b'a\0/b',
         b'attachment', b'inline', b'"x"', b'text/plain (c)']


def odd_parameters():
    parameter = st.builds(
        lambda name, form, eq, value: name.encode() + form + eq + value,
        st.sampled_from(PARAMETERS),
        st.sampled_from([b'', b'', b'*', b'*', b'*0', b'*0*', b'*1', b'*1*',
                         b'*x', b'*0*x', b'*10', b'*' + b'1' * 5000]),
        st.sampled_from([b'=', b'=', b'=', b' = ', b'']),
        st.sampled_from(PARAMETER_VALUES))
    return st.builds(lambda t, ps: b'; '.join([t] + ps),
                     st.sampled_from(TYPES), st.lists(parameter, max_size=3))


def odd_headers(max_size=6):
    value = st.one_of(
        st.lists(st.sampled_from([f for f in VALUE_FRAGMENTS
                                  if b'\n' not in f and f != b'\r']),
                 max_size=6).map(b''.join), odd_parameters())
    header = st.builds(lambda n, v: n.encode('latin-1') + b': ' + v + b'\n',
                       st.sampled_from(HEADER_NAMES), value)
    content = st.builds(lambda n, v: n + b': ' + v + b'\n', st.sampled_from(
        [b'Content-Type', b'Content-Type', b'Content-Disposition']),
        odd_parameters())
    encoding = st.sampled_from(
        [b'base64', b'quoted-printable', b'x-uuencode', b'uuencode', b'8bit',
         b'\xe9', b'bogus', b'BASE64 ', b'']).map(
             lambda e: b'Content-Transfer-Encoding: ' + e + b'\n')
    return st.lists(st.one_of(header, content, encoding),
                    max_size=max_size).map(b''.join)


def odd_messages():
    """The structure is that of a message, but its headers and parts are
    odd."""
    body = st.lists(st.one_of(st.sampled_from(BODY_FRAGMENTS),
                              st.sampled_from(VALUE_FRAGMENTS),
                              st.binary(max_size=6)), max_size=6).map(b''.join)
    return st.recursive(
        st.builds(lambda h, b: h + b'\n' + b, odd_headers(), body),
        lambda m: st.one_of(
            st.builds(lambda h, ps, end: h + b'Content-Type: multipart/mixed; '
                      b'boundary=b\n\n--b\n' + b'\n--b\n'.join(ps) + end,
                      odd_headers(3), st.lists(m, max_size=3),
                      st.sampled_from([b'\n--b--\n', b'', b'\n--b'])),
            st.builds(lambda h, m: h + b'Content-Type: message/rfc822\n\n' + m,
                      odd_headers(3), m)), max_leaves=4)


def raw_messages(max_fragments=14):
    header = st.one_of(st.sampled_from(HEADER_FRAGMENTS),
                       st.sampled_from(VALUE_FRAGMENTS),
                       st.sampled_from(VALUE_FRAGMENTS))
    body = st.one_of(st.sampled_from(BODY_FRAGMENTS),
                     st.sampled_from(BODY_FRAGMENTS),
                     st.sampled_from(VALUE_FRAGMENTS),
                     st.sampled_from(HEADER_FRAGMENTS), st.binary(max_size=6))
    return st.one_of(
        st.binary(max_size=60), odd_messages(), odd_messages(),
        st.builds(lambda h, b: b''.join(h) + b'\n\n' + b''.join(b),
                  st.lists(header, max_size=max_fragments),
                  st.lists(body, max_size=max_fragments)),
        st.builds(lambda h, b: b''.join(h) + b''.join(b),
                  st.lists(header, max_size=max_fragments),
                  st.lists(body, max_size=max_fragments)))
