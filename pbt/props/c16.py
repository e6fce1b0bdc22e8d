"""C16: URLs, uuencoded files and other sections become their own tokens, and
the text around them is kept."""
import binascii
import math
import re

import mail
from lib import Group, diff_sets, ensure, patched, same
from hypothesis import strategies as st
from props.c13 import text_strategy
from tokens import header_tokens, split_any, text_tokens, url_tokens, \
    uuencode_tokens, SEPARATORS


def tokens_of(text, codec='utf-8', cte='base64', kind='text/plain'):
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    message = dict(headers=[], body=dict(
        type=kind, charset=codec, cte=cte, data=text.encode(codec)))
    return (list(tokenize(from_bytes(mail.build(message)))),
            header_tokens(message, {}))


def compare(text, got, headers, kept, extra, optional=()):
    what = 'tokens of {!r}'.format(text[:300])
    words = text_tokens(kept.encode('utf-8'))
    expected = headers | set(words) | {t.encode('utf-8') for t in extra}
    optional = {t.encode('utf-8') for t in optional}
    diff_sets(set(got) - (optional - expected), expected, what)
    same([t for t in got if b':' not in t],
         [t for t in words if b':' not in t], what + ' in order')


# -- URLs -------------------------------------------------------------------

GUTS = ('abcxyzABC0129.-_~/?#[]@!$&()*+,;=:%' '{}|\\^`')


def check_urls(case):
    text, kept, extra = '', '', []
    for before, proto, rest, after in case['urls']:
        text += before + proto + '://' + rest + after
        kept += before + after
        extra += url_tokens(proto.lower(), rest.lower())
    text += case['tail']
    kept += case['tail']
    got, headers = tokens_of(text, cte=case['cte'])
    compare(text, got, headers, kept, extra)
    # The stripper itself says the same.
    from sbclassifier.strippers import URLStripper
    data = text.lower().encode('utf-8')
    rest, tokens = URLStripper().analyze(data)
    same(rest, kept.lower().encode('utf-8'), 'text around the URLs')
    same(list(tokens), [t.encode('utf-8') for t in extra], 'clues of URLs')
    labels = {'urls'} if case['urls'] else set()
    if text_tokens(kept.encode('utf-8')):
        labels.add('words')
    return labels


def guts_strategy():
    return st.one_of(
        st.text(alphabet=GUTS, min_size=1, max_size=20),
        st.sampled_from(['a.test', 'a.test/', 'a.test:80/b?c=d&e=f#g',
                         'WWW.Example.org/x/y.html?', 'me@a.test/...',
                         'a.test/%41%42', '1.2.3.4/', '....', 'a//b',
                         'a.test/$1,000+2', 'www.a.test/' + 'x' * 300])
    ).filter(lambda x: '&#' not in x and '://' not in x)


def urls_strategy():
    before = st.sampled_from(['', ' ', 'see ', 'see:', '(', '"', '<', '\n',
                              'word ', 'text/', '>', "'", '-'])
    after = st.sampled_from([' ', '\n', ' and', '" ', '> ', "' ", '\u00e9 ',
                             '\t', '"more ', ' word ', '\r\n', '>>>'])

    def closed(urls):
        # No HTML tags.
        text = ''.join(b + a for b, _p, _r, a in urls)
        return not re.search(r'<(?![\s<>])[^>]*>|&#', text) and not any(
            b == '' and i for i, (b, _p, _r, _a) in enumerate(urls))
    return st.fixed_dictionaries(dict(
        urls=st.lists(st.tuples(
            before, st.sampled_from(['http', 'https', 'ftp', 'HTTP', 'Ftp']),
            guts_strategy(), after), max_size=4).filter(closed),
        tail=st.sampled_from(['', 'the end', 'tail\n', 'http:/x', '://',
                              'http:// x', 'https://', 'gopher://x.test ']),
        cte=st.sampled_from(['base64', 'quoted-printable'])))


# -- picking URLs apart -----------------------------------------------------

def picked_tokens(url):
    """`url` is the disguised URL, all lower case."""
    proto, rest = url['shown'].split('://', 1)
    result = ['proto:' + proto]
    escapes, i = [], 0
    while i < len(rest):
        if rest[i] == '%' and i + 3 <= len(rest):
            escapes.append(rest[i:i + 3])
            i += 3
        else:
            i += 1
    if escapes:
        result.append('url:%%%d' % int(math.log2(len(escapes))))
        result += ['url:' + e for e in escapes]
    if url['user'] is not None:
        result.append('url:has user')
    if url['port'] and (proto, url['port']) in [
            (p, n) for p in ('http', 'https') for n in ('8080', '80', '443')
            if (p, n) not in [('http', '80'), ('https', '443')]]:
        result.append('url:non-standard %s port' % proto)
    if url['ip']:
        result.append('url:ip addr')
    guts = url['plain'].split('://', 1)[1].rstrip('.:?!/')
    for piece in guts.split('/'):
        result += ['url:' + chunk for chunk in split_any(piece, SEPARATORS)]
    return result


MUST_BE_ESCAPED = ' %"\'<>\x7f\xa0\xe9\t'


def check_picked(case):
    from sbclassifier import strippers
    if not hasattr(strippers, 'X_PICK_APART_URLS'):
        return set()
    plain = case['proto'] + '://'
    head = plain
    authority = ''
    if case['user'] is not None:
        authority += case['user'] + '@'
    authority += case['host']
    if case['port'] is not None:
        authority += ':' + case['port']
    plain += authority + case['path']
    shown = head + ''.join(
        '%%%02x' % ord(c) if c in MUST_BE_ESCAPED or case['escape'] and case[
            'escape'][i % len(case['escape'])] else c
        for i, c in enumerate(authority + case['path']))
    # A '%' that no two hexadecimal digits follow stands for itself.
    plain += case['stray']
    shown += case['stray']
    url = dict(case, plain=plain, shown=shown,
               ip=re.fullmatch(r'\d+\.\d+\.\d+\.\d+', case['host']))
    text = 'before ' + shown + ' after'
    with patched(strippers, X_PICK_APART_URLS=True):
        rest, tokens = strippers.URLStripper().analyze(text.encode('ascii'))
        got, headers = tokens_of(text)
    same(rest, b'before  after', 'text around ' + shown)
    expected = picked_tokens(url)
    what = 'clues of ' + shown
    same(sorted(tokens), sorted(t.encode('latin-1') for t in expected), what)
    if plain.isascii():
        compare(text, got, headers, 'before  after', expected)
    labels = {'picked'}
    for label in ('user', 'port', 'ip'):
        if url[label]:
            labels.add(label)
    if '%' in shown:
        labels.add('escapes')
    return labels


def picked_strategy():
    letters = 'abcdefgh0123456789-_~'
    host = st.one_of(
        st.sampled_from(['a.test', 'www.bank.test', 'x', 'localhost',
                         '10.0.0.1', '255.255.255.255', '1.2.3.4',
                         '1.2.3.4.a.test', 'a1.2.3.4']))
    return st.fixed_dictionaries(dict(
        proto=st.sampled_from(['http', 'https', 'ftp']),
        user=st.sampled_from([None, None, 'me', 'www.bank.test', 'me:pw',
                              'a@b', '']),
        host=host,
        port=st.sampled_from([None, None, '80', '443', '8080', '']),
        path=st.one_of(st.sampled_from(
            ['', '/', '/a/b.html', '?q=1', '/a?b=c&d=e', '/x!', '/...',
             '/\u00e9'[:1], '/a://b', '/10%'[:3], '/a;b', '/a,b$c+d',
             '/a b', '/b ', '/ ', '/"q"', '/<b>', '/10%', '/%41', '/caf\xe9',
             '/\xa0', '/a\t', "/'x'"]),
            st.text(alphabet=letters + '/', max_size=8).map(
                lambda t: '/' + t)),
        stray=st.sampled_from([''] * 6 + ['/%zz', '/a%', '/%%%x', '/%g1-%1g',
                                          '/%x']),
        escape=st.lists(st.booleans(), max_size=6)))


# -- addresses without a protocol -------------------------------------------

def check_fancy(case):
    from sbclassifier import strippers
    if not hasattr(strippers, 'FANCY_URL_RECOGNITION'):
        return set()
    text, kept, extra = '', '', []
    for before, proto, rest, after in case['urls']:
        text += before + proto + rest + after
        kept += before + after
        extra += url_tokens(
            proto.split(':')[0] or {'w': 'http', 'f': 'ftp'}[rest[0]], rest)
    with patched(strippers, FANCY_URL_RECOGNITION=True):
        stripper = strippers.URLStripper()
    rest, tokens = stripper.analyze(text.encode('utf-8'))
    same(rest, kept.encode('utf-8'), 'text around the URLs of ' + text)
    same(list(tokens), [t.encode('utf-8') for t in extra], 'clues of ' + text)
    return {'fancy'} if any(not u[1] for u in case['urls']) else set()


def fancy_strategy():
    url = st.one_of(
        st.tuples(st.just(''), st.sampled_from(
            ['www.x.test', 'ftp.x.test/a', 'www.example.org/?b=c.',
             'ftp.a', 'www.python.org'])),
        st.tuples(st.sampled_from(['http://', 'https://', 'ftp://']),
                  st.sampled_from(['a.test/b', 'www.x.test', 'ftp.y.test'])),
    )
    return st.fixed_dictionaries(dict(urls=st.lists(st.tuples(
        st.sampled_from(['see ', '(', ' ', '"', 'at: ', 'www. ', 'wwwx.y ',
                         'ftp.. ', 'xwww.y ', 'w.ftp ']),
        url, st.sampled_from([' ', '\n', '" ', '>', ' xwww.z.test '])).map(
            lambda t: (t[0], t[1][0], t[1][1], t[2])), max_size=4)))


# -- uuencoded files --------------------------------------------------------

def check_uuencode(case):
    text, kept, extra = '', '', []
    nl = '\r\n' if case['crlf'] else '\n'
    for before, mode, name, data, blank in case['files']:
        before = before.replace('\n', nl)
        text += before + nl
        kept += before + nl
        text += 'begin %s %s%s' % (mode, name, blank) + nl
        for i in range(0, len(data), 45):
            text += binascii.b2a_uu(data[i:i + 45]).decode().replace('\n', nl)
        text += '`' + nl + 'end' + nl
        extra += uuencode_tokens(mode.lower(), name.lower())
    text += case['tail']
    kept += case['tail']
    optional = []
    if case['open']:
        # It has no end, so that it is text.
        line = nl + 'begin 644 open.txt' + nl + 'more words' + nl
        text += line
        kept += line
        optional = uuencode_tokens('644', 'open.txt')
    got, headers = tokens_of(text, cte=case['cte'])
    compare(text, got, headers, kept, extra, optional)
    labels = {'files'} if case['files'] else set()
    if case['open']:
        labels.add('open')
    return labels


def uuencode_strategy():
    before = st.sampled_from(['', 'hello', 'some words', 'the\nend\n',
                              'begin', 'begin with this one', 'end',
                              'they begin 644 x', 'begin 644'])
    name = st.one_of(
        st.sampled_from(['a', 'money.txt', 'C:\\x\\y.exe', '/etc/passwd',
                         'a.b.c', 'A&B=c', '$1,000.doc', 'end']),
        st.text(alphabet='aB0./\\:;=&@-_', min_size=1, max_size=10)).filter(
            lambda n: '&#' not in n and 'http' not in n)
    # A line of these begins with "END".
    ends = st.builds(lambda n, b, rest: b'x' * 45 * n + b'\xba' + b + rest,
                     st.integers(0, 1), st.sampled_from([b'@', b'A', b'J']),
                     st.binary(min_size=35, max_size=35).filter(any))
    return st.fixed_dictionaries(dict(
        files=st.lists(st.tuples(before, st.sampled_from(
            ['644', '666', '0755', 'RWX']), name,
            st.one_of(st.binary(max_size=100), ends), st.sampled_from(['', '', ' '])),
            max_size=3),
        tail=st.sampled_from(['', 'the end', 'good bye\n', 'end\nof it']),
        open=st.booleans(), crlf=st.booleans(),
        cte=st.sampled_from(['base64', 'quoted-printable'])))


# -- sections in general ----------------------------------------------------

def check_sections(case):
    from sbclassifier.strippers import Stripper
    start, end, text = case['start'], case['end'], case['text']
    seen = []

    class Mine(Stripper):
        def tokenize(self, m):
            seen.append(m.span())
            return [b'%d-%d' % m.span(), b'x']

    if case['separator'] is not None:
        Mine.separator = case['separator']
    find_start = re.compile(re.escape(start)).search
    find_end = re.compile(re.escape(end)).search
    kept, spans, i = [], [], 0
    closed = True
    while True:
        j = text.find(start, i)
        if j < 0:
            kept.append(text[i:])
            break
        k = text.find(end, j + len(start))
        if k < 0:
            kept += [text[i:j], text[j:]]
            spans.append((j, j + len(start)))
            closed = False
            break
        kept.append(text[i:j])
        spans.append((j, j + len(start)))
        i = k + len(end)
    tokens = [t for s in spans for t in (b'%d-%d' % s, b'x')]
    got = Mine(find_start, find_end).analyze(text)
    ensure(type(got) is tuple and len(got) == 2, 'analyze() returned {}', got)
    what = 'sections {!r}...{!r} of {!r}: '.format(start, end, text)
    # Whether an open tag is worth tokens is left open.
    if closed or list(got[1]) != tokens[:-2]:
        same(list(got[1]), tokens, what + 'tokens')
    separator = case['separator'] or b''
    if closed or not separator:
        same(got[0], separator.join(kept), what + 'text')
    # By default there are no tokens.
    got = Stripper(find_start, find_end).analyze(text)
    same(got[0], b''.join(kept), what + 'text')
    same(list(got[1]), [], what + 'tokens by default')
    labels = set()
    if not closed:
        labels.add('open')
    if spans[1:] or closed and spans:
        labels.add('sections')
    return labels


def sections_strategy():
    tag = st.sampled_from([b'<', b'>', b'<<', b'ab', b'ba', b'a', b'aa',
                           b'<a>', b'</a>'])
    piece = st.one_of(tag, st.sampled_from([b' ', b'x', b'\n', b'\xe9']))
    return st.fixed_dictionaries(dict(
        start=tag, end=tag, text=st.lists(piece, max_size=14).map(b''.join),
        separator=st.sampled_from([None, None, b' ', b'--'])))


# -- tags that are never closed ---------------------------------------------

def check_unclosed(case):
    text = case['before'] + ' ' + case['tag'] + ' ' + case['after']
    kept = case['before'] + ' '
    if case['tag'] == '<!--':
        kept += case['tag']
    kept += ' ' + case['after']
    got, headers = tokens_of(text, kind=case['type'])
    compare(text, got, headers, kept, [])
    return {'unclosed'} if text_tokens(
        case['after'].encode('utf-8')) else set()


def unclosed_strategy():
    text = text_strategy('\u00e9').filter(
        lambda t: not re.search('style|comment|noframes|-->', t.lower()))
    return st.fixed_dictionaries(dict(
        before=text, after=text, tag=st.sampled_from(
            ['<!--', '<style>', '<STYLE type=x>', '<noframes>', '<comment>',
             '</style>', '</noframes>', '</comment>']),
        type=st.sampled_from(['text/html', 'text/plain'])))


# -- URLs in what is removed ------------------------------------------------

SECTIONS = {
    'comment': ('<!--', '-->'), 'other comment': ('<comment>', '</comment>'),
    'style': ('<style type=x>', '</style>'),
    'noframes': ('<noframes>', '</noframes>'),
    'link': ('<a href="', '">'), 'image': ('<IMG alt=x src=\'', '\'/>'),
    'file': ('\nbegin 644 name\n', '\nend\n'), 'none': ('', ''),
}


def check_nested(case):
    text, kept, extra = '', '', []
    labels = set()
    copies = case.get('copies', 1)
    if copies >= 100:
        labels.add('large')
    for before, kind, inside, urls, after in case['pieces'] * copies:
        start, end = SECTIONS[kind]
        tag = kind in ('link', 'image')
        text += before + start
        kept += before
        if kind == 'none':
            kept += inside
        if not tag:
            text += inside
        for proto, rest in urls[:1] if tag else urls:
            text += ('%s://%s' if tag else ' %s://%s ') % (proto, rest)
            if kind == 'none':
                kept += '  '
            if kind != 'file':
                extra += url_tokens(proto, rest)
                labels.add('nested')
        text += end + after
        if kind == 'file':
            kept += '\n'
            extra += uuencode_tokens('644', 'name')
        kept += after
    got, headers = tokens_of(text, kind=case['type'])
    compare(text, got, headers, kept, extra)
    return labels


def nested_strategy():
    words = st.sampled_from(['', ' ', ' some words ', 'word', '\n', 'a b ',
                             'three more words'])
    url = st.tuples(st.sampled_from(['http', 'https', 'ftp']),
                    st.sampled_from(['a.test', 'b.test/c?d=e', 'f.test/g.gif',
                                     'me@h.test:80/', 'i.test/j#k...']))
    return st.fixed_dictionaries(dict(
        type=st.sampled_from(['text/html', 'text/plain']),
        pieces=st.lists(st.tuples(
            words, st.sampled_from(sorted(SECTIONS)), words,
            st.lists(url, max_size=2), words), min_size=1, max_size=5)))


def large_strategy():
    return st.builds(lambda case, copies: dict(case, copies=copies),
                     nested_strategy(),
                     st.sampled_from([2, 10, 100, 300, 1000]))


GROUPS = [
    Group('urls', urls_strategy, check_urls, 1600, 60000, nontrivial=['urls'],
          rule='URLs with any characters a URL may have, in several kinds of '
               'surroundings, between words; the tokens must be those of the '
               'URLs (pieces between separators, trailing punctuation lost) '
               'and of the words left; non-trivial if there is a URL.'),
    Group('picked', picked_strategy, check_picked, 800, 30000,
          nontrivial=['escapes', 'user', 'port', 'ip'],
          rule='URLs with users, ports, IP addresses and escaped characters '
               'when URLs are picked apart; non-trivial if there is one of '
               'these.'),
    Group('fancy', fancy_strategy, check_fancy, 400, 15000,
          nontrivial=['fancy'],
          rule='Text with www.x and ftp.x when these are recognized; '
               'non-trivial if there is such an address.'),
    Group('uuencode', uuencode_strategy, check_uuencode, 800, 30000,
          nontrivial=['files', 'open'],
          rule='Uuencoded files (and one without an end) between words; '
               'non-trivial if there is one.'),
    Group('sections', sections_strategy, check_sections, 1600, 60000,
          nontrivial=['sections', 'open'],
          rule='Stripper with arbitrary start, end and separator on short '
               'texts full of them; non-trivial if there is a section.'),
    Group('unclosed', unclosed_strategy, check_unclosed, 600, 20000,
          nontrivial=['unclosed'],
          rule='A start tag without its end: all words remain; non-trivial '
               'if there are words after it.'),
    Group('nested', nested_strategy, check_nested, 600, 20000,
          nontrivial=['nested'],
          rule='URLs in tags, comments, styles and other parts that are '
               'removed with their words, but not without the URL; '
               'non-trivial if there is one.'),
    Group('large', large_strategy, check_nested, 100, 2500,
          nontrivial=['large'],
          rule='Up to 1000 copies of such a text; non-trivial from 100 on.'),
]
ASSUMPTIONS = ['URLs are recognized in lower-cased text',
               'whether an open section is worth tokens is left open']
