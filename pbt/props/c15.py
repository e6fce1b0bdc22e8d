"""C15: markup and encodings do not disguise the words of a message."""
import mail
from lib import Group, diff_sets, same
from hypothesis import strategies as st
from props.c13 import harmless, word_strategy
from tokens import header_tokens, text_tokens, url_tokens

# Things without an effect on the words, and the tokens they are worth.
# All of it is markup by the documented rules (see tokenizer.py).
TAGS = [('<b>', []), ('</b>', []), ('<FONT color="red">', []), ('<i\n>', []),
        ('<!$FS|i|R3$s80sA >', []), ('<!doctype html>', []), ('<pre>', []),
        ('<br/>', []), ('<p class=x>', []), ('<o:p>', []), ('<?xml?>', []),
        ('<td\nalign=left\n>', []), ('<abbr>', []), ('<param>', []),
        ('<%= x %>', []), ('<spanning words here>', [])]
CLUES = [('<script>', ['virus:<script']), ('</SCRIPT>', ['virus:</script']),
         ('<iframe x>', ['virus:<iframe']),
         ('</ iframe>', ['virus:</ iframe']),
         ('<img src=cid:a>', ['virus:src=cid:']),
         ('<img SRC="cid:a">', ['virus:src="cid:']),
         ("<x width='0'>", ["virus:width='0"]),
         ('<x height=0>', ['virus:height=0']),
         ('<iframe src="cid:a" height=0 width="0">',
          ['virus:<iframe', 'virus:src="cid:', 'virus:height=0',
           'virus:width="0']),
         ('<scripted>', []), ('<x width=10>', []), ('<xsrc=cid:>', [])]
LINKS = [('<a href="http://a.test/b">', url_tokens('http', 'a.test/b')),
         ("<A HREF='HTTPS://A.test/?x=Y'>", url_tokens('https', 'a.test/?x=y')),
         ('<img src=ftp://c.test/d.gif>', url_tokens('ftp', 'c.test/d.gif')),
         ('<a href="&#104;ttp&#58;&#47;&#047;&#65;.test/&#98;">',
          url_tokens('http', 'a.test/b'))]
BREAKS = ['<p>', '<br>', '<P>', '<BR>', '&nbsp;', '&NBSP;']
HIDDEN = ['hidden', 'SECRET', 'nothing to see', 'a=1;', '{x: y}', '\n', ' ',
          '- -', '> <', '&#97;', '&nbsp;', 'x' * 30, '<b>', '<p>', '<br>',
          '&lt;', 'caf\u00e9', '@', '</b', 'a>b']


def build(case):
    """The plain text, the text in disguise, and the extra tokens."""
    units, extra = [], set()
    for word, gap in case['words']:
        units.extend(['word', c, c] for c in word)
        units.append(['gap', gap, ' ' if gap in BREAKS else gap])
    for position, what in case['letters']:
        kind, text, _ = unit = units[position % len(units)]
        if kind == 'word' and len(text) == 1:
            if what == 'case':
                if text.isascii():
                    unit[1] = text.swapcase()
            elif isinstance(what, str):
                # The number of no character. (After '<', it might be a tag.)
                if not any('<' in u[2] for u in units):
                    unit[1:] = [what, '?']
            elif text.isascii() or case['charset'] == 'utf-8':
                unit[1] = '&#' + '0' * what + '%d;' % ord(text)
    plain = ''.join(u[2] for u in units)
    before = {}
    for position, text, tokens in case['markup']:
        before.setdefault(position % (len(units) + 1), []).append(text)
        extra.update(tokens)
    result = []
    for i, unit in enumerate(units + [['', '', '']]):
        result.extend(before.get(i, ()))
        result.append(unit[1])
    return plain, ''.join(result), extra


def check(case):
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    plain, disguised, extra = build(case)
    copies = case.get('copies', 1)
    if copies > 1:
        # Every copy has words of its own.
        plain, disguised = ('\n'.join('%s word%d' % (text, i)
                                      for i in range(copies))
                            for text in (plain, disguised))
    codec = case['charset'] or 'utf-8'
    leaf = dict(type=case['type'], charset=case['charset'], cte=case['cte'],
                data=disguised.encode(codec))
    message = dict(headers=[], body=leaf)
    got = list(tokenize(from_bytes(mail.build(message))))
    words = text_tokens(plain.encode(codec))
    what = 'tokens of {!r}'.format(disguised[:300])
    diff_sets(got, header_tokens(message, {}) | set(words)
              | {t.encode() for t in extra}, what)
    same([t for t in got if b':' not in t],
         [t for t in words if b':' not in t], what + ' in order')
    labels = set(case['labels'])
    if copies >= 100:
        labels.add('large')
    if words and disguised != plain:
        labels.add('disguised')
    if extra:
        labels.add('clues')
    return labels


def markup_strategy():
    """Pairs of markup and the tokens it is worth, with a label."""
    blank = st.sampled_from(['', ' ', '\n'])
    tag = st.sampled_from(TAGS + CLUES + LINKS)
    long_tag = st.builds(lambda c, n: ('<a ' + c * n + '>', []),
                         st.sampled_from('x ="'), st.one_of(
                             st.integers(0, 254),
                             st.sampled_from([252, 253, 254])))

    def join(pieces, n):
        """Hidden text, possibly a lot of it."""
        text = ' '.join(p[0] for p in pieces) + ' '
        return (text * min(n, 1 + 8000 // len(text)),
                [t for p in pieces for t in p[1]])

    hidden = st.one_of(st.sampled_from([(h, []) for h in HIDDEN]), tag)
    many = st.sampled_from([1, 1, 1, 1, 1, 1, 1, 2, 400])

    def element(starts, ends, inner):
        return st.builds(
            lambda start, i, n, end: (start + ' ' + join(i, n)[0] + ' ' + end,
                                      join(i, n)[1]),
            st.sampled_from(starts), st.lists(inner, max_size=3), many,
            st.sampled_from(ends))

    comment_ends = ['-->', '</comment>', '</COMMENT>']
    comment_starts = ['<!--', '<comment>', '< Comment x=y>', '<comment >',
                      '<comment\nx\n>', '<\tcomment\nlang=en >']
    flat_comment = element(comment_starts, comment_ends, hidden)
    style = element(['<style>', '<STYLE type="text/css">', '< style\nx>'],
                    ['</style>', '</STYLE>'], st.one_of(hidden, flat_comment))
    comment = element(comment_starts, comment_ends, st.one_of(
        hidden, style, st.just(('<noframes>', [])), st.just(('<!--', []))))
    noframes = element(['<noframes>', '<NOFRAMES >', '< noframes>'],
                       ['</noframes>', '</noframes >'],
                       st.one_of(hidden, style, comment))
    return st.one_of(
        tag.map(lambda x: x + ('tag',)), long_tag.map(lambda x: x + ('tag',)),
        tag.map(lambda x: x + ('tag',)),
        style.map(lambda x: x + ('style',)),
        comment.map(lambda x: x + ('comment',)),
        noframes.map(lambda x: x + ('noframes',)))


def unmarked(text):
    low = text.lower()
    return harmless(text) and not any(
        x in low for x in ('style', 'comment', 'noframes', 'script', 'iframe'))


def strategy():
    @st.composite
    def cases(draw):
        charset = draw(st.sampled_from([None, 'utf-8', 'utf-8', 'iso-8859-1']))
        word = st.one_of(
            word_strategy('' if charset is None else '\u00e9\u00ff\u00c9'),
            st.sampled_from(mail.WORDS), st.sampled_from(mail.WORDS),
            st.sampled_from(['<', '<<<', '>', '>>>', '=>', '-->', '<<<<<',
                             '&amp;', 'AT&T', '&#x61;', '&#;', '&#97',
                             '&nbsp', 'a&nbspb', '&nbspx;', '&n', 'nbsp;']))
        gap = st.sampled_from([' ', ' ', '\n', '\t', '  '] + BREAKS)
        pairs = draw(st.lists(st.tuples(word, gap), min_size=1, max_size=6)
                     .filter(lambda ps: unmarked(''.join(w + g
                                                         for w, g in ps))))
        positions = st.integers(0, 60)
        markup = draw(st.lists(st.tuples(positions, markup_strategy()),
                               max_size=4))
        return dict(
            charset=charset, words=pairs,
            type=draw(st.sampled_from(['text/html', 'text/plain'])),
            cte=draw(st.sampled_from(
                ['base64', 'quoted-printable'])),
            letters=draw(st.lists(st.tuples(
                positions, st.one_of(
                    st.just('case'), st.just('case'), st.integers(0, 3),
                    st.integers(0, 3), st.sampled_from(
                        ['&#1114112;', '&#55296;', '&#57343;',
                         '&#99999999;', '&#0001114112;', '&#2147483647;',
                         '&#2147483648;', '&#%s;' % ('9' * 4400),
                         '&#99999999999999999999;']))),
                max_size=5)),
            markup=[(p, m[0], m[1]) for p, m in markup],
            labels=sorted({m[2] for p, m in markup}))
    return cases()


def large_strategy():
    return st.builds(
        lambda case, copies: dict(case, copies=copies), strategy().filter(
            lambda c: len(build(c)[1]) < 1000),
        st.sampled_from([2, 100, 300, 1100, 2000]))


GROUPS = [
    Group('disguise', strategy, check, 3200, 120000, nontrivial=['disguised'],
          rule='Words in which tags, comments, styles and noframes sections '
               '(nested, long, with links and clues in them) are put at any '
               'place, letters written as numeric entities or in the other '
               'case, and gaps written as <p>, <br> or &nbsp;; the tokens '
               'must be those of the words (in order) and of the links and '
               'clues; non-trivial if there are words, and something is '
               'disguised.'),
    Group('large', large_strategy, check, 100, 2500, nontrivial=['large'],
          rule='Up to 2000 copies of such a text; non-trivial from 100 on.'),
]
ASSUMPTIONS = ['markup follows the documented rules: tags of up to 256 '
               'characters, sections that end']
