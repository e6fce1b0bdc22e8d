"""What the tokens of a message should be, written from the documentation of
the tokenizer; see mail.py for how messages are represented."""
import math
from email.header import decode_header

import mail

SAFE_HEADERS = {
    'abuse-reports-to', 'date', 'errors-to', 'from', 'importance',
    'in-reply-to', 'message-id', 'mime-version', 'organization', 'received',
    'reply-to', 'return-path', 'subject', 'to', 'user-agent', 'x-abuse-info',
    'x-complaints-to', 'x-face'}
ADDRESS_HEADERS = ('from', 'to', 'cc', 'sender', 'reply-to')
SEPARATORS = ';?:@&=+,$.'


def word_tokens(word):
    """The tokens of a word, given as str whose characters count."""
    n = len(word)
    if n < 3:
        return []
    if n <= 12:
        return [word]
    if n < 40 and '.' in word and word.count('@') == 1:
        name, address = word.split('@')
        return ['email name:' + name, 'email addr:' + address]
    result = ['skip:%s %d' % (word[0], n - n % 10)]
    high = sum(1 for c in word if ord(c) > 127)
    if high:
        result.append('8bit%%:%d' % round(high * 100.0 / n))
    return result


def body_word_tokens(word):
    """The tokens of a word of a body, given as bytes."""
    return [t.encode('latin-1')
            for t in word_tokens(word.lower().decode('latin-1'))]


def text_tokens(data):
    """The tokens of text without markup, URLs and the like."""
    result = []
    for word in data.split():
        result.extend(body_word_tokens(word))
    return result


def split_any(text, separators):
    result = ['']
    for c in text:
        if c in separators:
            result.append('')
        else:
            result[-1] += c
    return result


def filename_tokens(name):
    result = ['fname:' + name]
    components = split_any(name, '/\\:')
    for component in components:
        if len(components) > 1:
            result.append('fname comp:' + component)
        pieces = split_any(component, SEPARATORS)
        if len(pieces) > 1:
            result.extend('fname piece:' + p for p in pieces)
    return result


def url_tokens(proto, rest):
    """The tokens of the URL proto://rest, all lower case."""
    result = ['proto:' + proto]
    while rest[-1:] in tuple('.:?!/') and rest:
        rest = rest[:-1]
    for c in split_any(rest, SEPARATORS + '/'):
        result.append('url:' + c)
    return result


def uuencode_tokens(mode, name):
    return (['uuencode mode:' + mode]
            + ['uuencode:' + t for t in filename_tokens(name)])


# -- headers ----------------------------------------------------------------

def is_word(c):
    return c.isalnum() or c == '_'


def words_of(text):
    """Runs of word characters, including some that prices are made of."""
    result, current = [], ''
    for c in text:
        if is_word(c) or c in '$.%' or 0x80 <= ord(c) <= 0xff:
            current += c
        elif current:
            result.append(current)
            current = ''
    return result + ([current] if current else [])


def punctuation_of(text):
    result, current = [], ''
    for c in text:
        if not is_word(c):
            current += c
        elif current:
            result.append(current)
            current = ''
    return result + ([current] if current else [])


def chunks_of(value):
    """The decoded chunks of a header and their character sets."""
    if isinstance(value, bytes):
        if not value.isascii():
            return [(value.decode('latin-1'), 'unknown-8bit')]
        value = value.decode('ascii')
    result = []
    for chunk, charset in decode_header(value):
        if isinstance(chunk, bytes):
            try:
                chunk = chunk.decode(charset or 'ascii')
            except (LookupError, ValueError):
                chunk = chunk.decode('latin-1')
        result.append((chunk, charset))
    return result


def subject_tokens(value):
    result = []
    for text, charset in chunks_of(value):
        if charset is not None:
            result.append('subjectcharset:' + charset)
        text = text.replace('\r', ' ')
        for word in words_of(text):
            result.extend('subject:' + t for t in word_tokens(word))
        result.extend('subject:' + p for p in punctuation_of(text))
    return result


def power(n):
    return '2**%d' % round(math.log2(n))


def address_tokens(field, headers):
    """`headers` is a list of lists of (name, address); the name is '' or a
    header value without quotes."""
    if not headers:
        return [field + ':none']
    result, nameless = [], 0
    for name, address in [a for header in headers for a in header]:
        if name:
            for text, charset in chunks_of(name):
                result.append('%s:name:%s' % (field, text.lower()))
                if charset is not None:
                    result.append('%s:charset:%s' % (field, charset))
        else:
            nameless += 1
        if address:
            result.extend('%s:addr:%s' % (field, part)
                          for part in address.lower().split('@'))
        else:
            result.append(field + ':addr:none')
    if nameless:
        result.append('%s:no real name:%s' % (field, power(nameless)))
    return result


def parts_of(message):
    """All parts in order, with the containers."""
    def walk(part):
        yield part
        if 'multipart' in part:
            for child in part['parts']:
                for p in walk(child):
                    yield p
        elif 'rfc822' in part:
            for p in walk(part['rfc822'].get('body') or {}):
                yield p
    return list(walk(message.get('body') or {}))


def content_tokens(message):
    result = []
    for part in parts_of(message):
        if 'multipart' in part:
            kind = 'multipart/' + part['multipart']
        elif 'rfc822' in part:
            kind = 'message/rfc822'
        else:
            kind = (part.get('type') or 'text/plain').split(';')[0].lower()
        result.append('content-type:' + kind)
        if part.get('charset') and part.get('type'):
            result.append('charset:' + part['charset'].lower())
        if part.get('typeparam'):
            result.append('content-type/type:' + part['typeparam'].lower())
        name = None
        if part.get('disposition'):
            result.append('content-disposition:'
                          + mail.disposition(part).lower())
            name = part.get('filename')
        if name is None and part.get('type'):
            name = part.get('name')
        if name:
            result.extend('filename:' + t for t in filename_tokens(name))
    return result


def header_tokens(message, addresses):
    """The tokens (as a set of bytes) of the headers of a message. `addresses`
    maps the address headers, in lower case, to what they contain."""
    headers = message['headers']
    result = content_tokens(message)

    def get(name):
        for k, v in headers:
            if k.lower() == name:
                return v
        return None

    if get('subject') is not None:
        result.extend(subject_tokens(get('subject')))
    else:
        result.extend(subject_tokens(''))
    for field in ADDRESS_HEADERS:
        result.extend(address_tokens(field, addresses.get(field, [])))
    for field in ('to', 'cc'):
        n = sum(len(header) for header in addresses.get(field, []))
        if n:
            result.append('%s:%s' % (field, power(n)))
    mailer = get('x-mailer')
    result.append('x-mailer:' + ('none' if mailer is None
                                 else ' '.join(mailer.lower().split())))
    result.append('message-id:' + message_id_clue(get('message-id')))
    counts = {}
    for k, _v in headers:
        if k.lower() in SAFE_HEADERS:
            counts[k] = counts.get(k, 0) + 1
    result.extend('header:%s:%d' % item for item in counts.items())
    return {t.encode('utf-8', 'surrogatepass') for t in result}


def message_id_clue(value):
    """@ and the host of <name@host>, or 'invalid'."""
    value = (value or '').strip()
    if value.startswith('<') and '>' in value:
        name, at, host = value[1:value.index('>')].partition('@')
        if name and at and host and value.index('>') == len(value) - 1:
            return '@' + host
    return 'invalid'
