"""C32: the time a message takes is about in proportion to its size."""
import email
import signal
import time

from lib import Group, Violation, patched, scratch, stand_in
from hypothesis import strategies as st

# Processor time, so that other processes on the machine make no difference.
# The messages below take less than a second, and twice the time if they are
# twice as large; where the time grows with the square of the size, they take
# minutes.
LIMIT = 15
SIZE = 700000
HEADER_SIZE = 20000

PIECES = [
    b'<', b'>', b'<style', b'<style ', b'<style>', b'</style>', b'</style',
    b'<comment', b'<comment ', b'<comment>', b'</comment>', b'</comment',
    b'<!--', b'-->', b'--', b'<!', b'<noframes', b'<noframes ', b'<noframes>',
    b'</noframes', b'</noframes ', b'</noframes>', b'< ', b'</', b'</ ',
    b'<a', b'<a ', b'<a>', b'<p>', b'<br>', b'&nbsp;', b'&nbsp', b'<script',
    b'< script', b'<iframe', b'<img src=cid:', b'src="cid:', b'height=0',
    b"width='0", b'begin', b'begin ', b'begin 644', b'begin 644 ',
    b'begin 644 a.txt', b'begin 644 a.txt\n', b'\nbegin ', b'\nbegin 644 a\n',
    b'end', b'end ', b'\nend', b'\nend ', b'end\n', b'M', b'#0V%T\n',
    b'http', b'http:', b'http://', b'https://', b'ftp://', b'http://a',
    b'http://a ', b'http://a.b/c?d=e&f ', b'http://1', b'http://[',
    b'http://a:1@', b'http://%41', b'www.', b'www.a', b'ftp.', b'%41', b'%',
    b'@', b':', b'/', b'?', b'.', b'1', b'1.', b'a', b'a.', b'a@', b'a@b.c ',
    b'ab ', b'a ', b'abcdefghijklmnopq ', b' ', b'\t', b'\n', b'\r', b'\r\n',
    b'\x0b', b'\0', b'\xe9', b'\xff', b'"', b"'", b'=', b'&', b'&#', b'&#1',
    b'&#97;', b'&#97', b'&#x', b';', b'(', b')', b'[', b']', b'{', b'-', b'_',
]
HEADER_PIECES = [
    b'a', b'A', b'1', b'.', b'1.', b'a.', b'@', b'a@', b'a@b', b'a@b.c, ',
    b'<', b'<a', b'<a@', b'>', b'(', b'(a', b'(a ', b')', b'[', b'[1.', b']',
    b'from ', b'from a', b'from a.', b'by ', b' ', b'\t', b'\n ', b'!', b'?',
    b'=', b'=?', b'?=', b'=?utf-8?', b'=?utf-8?q?a', b'=?utf-8?q?a?= ', b':',
    b',', b'"', b'\\', b'-', b'_', b'%', b'$', b'\xe9',
]
HEADERS = ['Subject', 'From', 'To', 'Cc', 'Reply-To', 'Received',
           'Message-ID', 'X-Mailer', 'NNTP-Posting-Host', 'X-Other']
OPTIONS = ['X_PICK_APART_URLS', 'X_SHORT_RUNS', 'MINE_RECEIVED_HEADERS',
           'SUMMARIZE_EMAIL_PREFIXES', 'SUMMARIZE_EMAIL_SUFFIXES',
           'REPLACE_NONASCII_CHARS', 'COUNT_ALL_HEADER_LINES',
           'RECORD_HEADER_ABSENCE', 'BASIC']


class Slow(BaseException):
    pass


def limited(f, what):
    """Calls `f`, for a limited processor time."""
    def slow(_signum, _frame):
        raise Slow
    start = time.process_time()
    before = signal.signal(signal.SIGPROF, slow)
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    try:
        result = f()
    except Slow:
        raise Violation('{} is not finished after {} s of processor time'
                        .format(what, LIMIT))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, before)
    if time.process_time() - start > LIMIT:
        raise Violation('{} takes more than {} s of processor time'
                        .format(what, LIMIT))
    return result


def repeat(runs, size):
    """The text of a list of (pieces, repeated?) pairs."""
    long_runs = sum(1 for _pieces, repeated in runs if repeated)
    result = []
    for pieces, repeated in runs:
        text = b''.join(pieces)
        if repeated:
            text *= size // long_runs // len(text)
        result.append(text)
    return b''.join(result)


def tokens_of(message, options, what):
    from sbclassifier import strippers, tokenizer
    arguments = ({'basic_header_tokenize': True} if 'BASIC' in options
                 else {})
    on = [{o: True for o in options if hasattr(module, o)}
          for module in (strippers, tokenizer)]
    with patched(strippers, **on[0]), patched(tokenizer, **on[1]):
        return limited(lambda: list(tokenizer.tokenize(message, **arguments)),
                       what)


def check(case):
    from sbclassifier import Classifier
    text = repeat(case['runs'], SIZE)
    raw = b'Subject: hello\nContent-Type: text/%s\n\n%s\n' % (
        case['subtype'].encode(), text)
    message = email.message_from_bytes(raw)
    what = 'a text of {} characters'.format(len(text))
    tokens = tokens_of(message, case['options'], 'tokenizing ' + what)
    if case['score']:
        def score():
            c = Classifier(use_bigrams=case['score'] == 'bigrams')
            c.learn(tokens, True)
            c.learn([b'other'], False)
            c.spamprob(tokens)
            c.unlearn(tokens, True)
        limited(score, 'training and scoring ' + what)
    labels = {'text'}
    if len(tokens) > 10000:
        labels.add('many tokens')
    return labels


def check_header(case):
    value = repeat(case['runs'], HEADER_SIZE)
    # A line that is empty, or not continued, would end the header.
    value = b'\n '.join(line.strip(b'\r\n') for line in value.split(b'\n ')
                        if line.strip())
    raw = b'%s: %s\n\nhello\n' % (case['header'].encode(), value)
    message = email.message_from_bytes(raw)
    with patched_dns():
        tokens_of(message, case['options'] + ['X_MINE_NNTP_HEADERS'],
                  'tokenizing a header %s of %d characters' % (
                      case['header'], len(value)))
    return {'header'}


def patched_dns():
    import socket

    def fail(*args, **kw):
        raise socket.gaierror('no lookups here')
    return stand_in(socket, getaddrinfo=fail, gethostbyaddr=fail)


def check_text(case):
    """Messages are written, annotated and kept by a corpus."""
    from sbclassifier.corpora.filesystem import FileCorpus
    from sbclassifier.message import from_bytes, insert_exception_header
    text = repeat(case['runs'], SIZE)
    raw = b'Subject: hello\nMessage-ID: <a@b.c>\n\n%s\n' % text
    message = from_bytes(raw, 'id')

    def annotate():
        message.add_sb_headers(0.5, [(b'word', 0.5)], include_evidence=True,
                               include_score=True, include_thermostat=True)
        written = message.as_string()
        message.remove_sb_headers()
        try:
            raise ValueError('test')
        except ValueError:
            insert_exception_header(written, 'id')

    what = 'a message of {} characters'.format(len(text))
    limited(annotate, 'annotating and writing ' + what)
    with scratch() as directory:
        def keep():
            corpus = FileCorpus(directory)
            corpus.add_message(message)
            FileCorpus(directory)['id']
            corpus.remove_message(message)
        limited(keep, 'keeping ' + what)
    return {'text'}


def runs(pieces):
    @st.composite
    def result(draw):
        piece = st.sampled_from(pieces)
        run = st.tuples(st.lists(piece, min_size=1, max_size=3),
                        st.booleans()).map(list)
        found = draw(st.lists(run, max_size=3))
        found.insert(draw(st.integers(0, len(found))),
                     [draw(st.lists(piece, min_size=1, max_size=2)), True])
        return found
    return result()


def texts():
    return st.fixed_dictionaries(dict(
        subtype=st.sampled_from(['plain', 'html']), runs=runs(PIECES),
        score=st.sampled_from(['', '', '', 'words', 'bigrams']),
        options=st.lists(st.sampled_from(OPTIONS), max_size=4, unique=True)))


def each():
    """Every piece, repeated, after the start of everything that has an end."""
    starts = [b'', b'<', b'<style', b'<comment', b'<noframes', b'<!--',
              b'<style>', b'<comment>', b'<noframes>', b'\nbegin', b'&#',
              b'\nbegin 644', b'\nbegin 644 a', b'\nbegin 644 a\n', b'http://']
    return [dict(subtype='html', score='', options=['X_PICK_APART_URLS'],
                 runs=[[[start], False], [[piece], True], [[b'a'], False]])
            for start in starts
            for piece in (b' ', b'a', b'1', b'\n', b'<', b'<comment ',
                          b'<style ', b'<a ', b'</a', b'&#1', b'\nend',
                          b'\nbegin ')]


def headers():
    return st.fixed_dictionaries(dict(
        header=st.sampled_from(HEADERS), runs=runs(HEADER_PIECES),
        options=st.lists(st.sampled_from(OPTIONS), max_size=4, unique=True)))


def each_header():
    """Every piece, repeated, after some beginnings."""
    starts = {'Received': [b'', b'(', b'(a', b'(a ', b'[', b'from ',
                           b'from a', b'from a (', b'from a ([1']}
    return [dict(header=header, options=OPTIONS,
                 runs=[[[start or b'a'], False], [[piece], True],
                       [[b'!'], False]])
            for header in HEADERS
            for start in starts.get(header, [b'', b'<', b'<a@'])
            for piece in HEADER_PIECES]


GROUPS = [
    Group('text', texts, check, 150, 10000, nontrivial=['text'], fixed=each,
          rule='A text of about 700,000 characters that repeats some pieces '
               '(beginnings and ends of tags, comments, sections, URLs, '
               'entities, words, white space) is tokenized, and sometimes '
               'trained and scored, in at most %d s of processor time (usual '
               'is less than 1 s); all cases are non-trivial.' % LIMIT),
    Group('header', headers, check_header, 500, 20000, nontrivial=['header'],
          fixed=each_header,
          rule='A header of about 20,000 characters that repeats some pieces '
               'is tokenized in that time; all cases are non-trivial.'),
    Group('message', lambda: st.fixed_dictionaries(dict(runs=runs(PIECES))),
          check_text, 50, 3000, nontrivial=['text'],
          rule='Such a text is annotated, written, reported an exception in, '
               'and kept in a directory, in that time; all cases are '
               'non-trivial.'),
]
ASSUMPTIONS = ['up to 700,000 characters of text, 20,000 of a header',
               'the time the email package takes for parameters of '
               'Content-Type is not considered',
               'a limit of %d s, where less than 1 s is usual' % LIMIT]
