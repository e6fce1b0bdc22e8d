"""C19: reporting an exception in a message leaves the message as it was."""
import email
import re
import traceback

import mail
from lib import Group, ensure, same
from hypothesis import strategies as st

EXCEPTION = 'X-Spambayes-Exception'
MAILID = 'X-Spambayes-MailId'
TYPES = [ValueError, KeyError, UnicodeError, SyntaxError, Exception,
         RuntimeError, ZeroDivisionError, OSError]


def unfold(value):
    return re.sub(r'\s+', ' ', str(value).strip())


def fail(kind, message, depth):
    if depth:
        fail(kind, message, depth - 1)
    raise TYPES[kind](message)


def check(case):
    from sbclassifier.message import insert_exception_header
    labels = set()
    headers = case['headers']
    eol = case['eol']
    head = eol.join('%s: %s' % (k, v.replace('\n', eol)) for k, v in headers)
    body = case['body']
    if body is None:
        text = head + eol * case['end']
    else:
        text = head + eol + eol + body
    try:
        fail(case['kind'], case['message'], case['depth'])
    except Exception:
        expected_details = traceback.format_exc()
        result = insert_exception_header(text, *(
            [case['id']] if case['positional'] else []), **(
            {} if case['positional'] else {'msg_id': case['id']}))
    ensure(isinstance(result, tuple) and len(result) == 2, 'result {}', result)
    new, details = result
    def place(t):
        return re.sub(r'line \d+', 'line', re.sub(r'\n *[\^~]+ *(?=\n)', '', t))
    ensure(TYPES[case['kind']].__name__ in details, 'details {}', details)
    same(place(details).split('\n')[-2:], place(expected_details).split('\n')[-2:],
         'end of the details')
    # The body is the same, to the last character.
    parts = re.split('\r\n\r\n|\n\n|\n\r\n', new, maxsplit=1)
    same(len(parts), 2, 'parts of %r' % new)
    new_head, new_body = parts
    same(new_body, body or '', 'body')
    ensure(new.startswith(head), 'the header before is not kept in {}', new)
    if eol == '\r\n' and (body is not None or case['end']):
        ensure(new[len(head):].startswith('\r\n'),
               'end of the line before the report: {}', new)
    # The header lines are those from before and the new ones.
    lines = re.split(r'\r?\n', new_head)
    old_lines = re.split(r'\r?\n', head)
    same(lines[:len(old_lines)], old_lines, 'header lines from before')
    added = lines[len(old_lines):]
    ensure(added and added[0].startswith(EXCEPTION + ': '),
           'no exception header in {}', added)
    names = [line.split(':')[0] for line in added
             if not line[:1] in (' ', '\t')]
    same(names, [EXCEPTION] + ([MAILID] if case['id'] else []),
         'names of the added headers')
    ensure('' not in added, 'an empty line in the header {}', added)
    ensure(not any('\r' in line for line in added), 'CR in {}', added)
    for line in re.findall(r'[^\n]*\n', new_head[len(head):] + '\r\n'):
        if line.strip('\r\n'):
            ensure(line.endswith('\r\n'), 'line {} ends without CR', line)
    same(new.encode('utf-8', 'surrogateescape') and True, True, 'bytes')
    # So whoever reads the message finds the same headers.
    before = email.message_from_string(text)
    after = email.message_from_string(new)
    same([(k, unfold(v)) for k, v in after.items()
          if k not in (EXCEPTION, MAILID)],
         [(k, unfold(v)) for k, v in before.items()],
         'headers from before')
    same(len(after.get_all(EXCEPTION)), 1, 'number of exception headers')
    value = unfold(after[EXCEPTION])
    ensure(value.startswith('Traceback (most recent call last):'),
           'value {}', value)
    ensure(TYPES[case['kind']].__name__ in value, 'no type in {}', value)
    word = re.sub(r'\W.*', '', case['message'], flags=re.S)
    if word.isascii():
        ensure(word in value, 'no message in {}', value)
    if case['id']:
        same(after.get_all(MAILID), [case['id']], 'identifier')
    if re.search(r'[\r\n]|[^\x00-\x7f]', case['message']):
        labels.add('odd message')
    if body is None:
        labels.add('no body')
    elif '\n' in body:
        labels.add('lines')
    return labels


def strategy():
    message = st.one_of(
        st.sampled_from(['boom', 'two\nlines', 'blank\n\nline', '\r\n\r\nX: y',
                         'bare\rreturn', 'caf\u00e9 \u2603', '\ud800 surrogate',
                         'long ' * 60, '', 'a: b', 'x\n\n\n', 'tab\ttab',
                         '\nInjected: 1', '%s: 5' % MAILID, EXCEPTION,
                         MAILID.lower(), 'no %s, no %s' % (EXCEPTION, MAILID),
                         'in\n%s: 7' % MAILID, '\x0b\x0c', '\x85', '\u2028']),
        st.text(max_size=12))
    value = st.sampled_from(['x', 'hello world', 'folded\n value',
                             'blank\n \n line', 'blank\n\t \n\tlines\n \n x',
                             '=?utf-8?q?caf=C3=A9?=', 'caf\u00e9',
                             'word ' * 20, 'trailing:colon', MAILID,
                             'the %s: header' % EXCEPTION, '1', 'abc-1'])
    body = st.one_of(
        st.none(), st.sampled_from(['', 'x', '\n', '\r\n', 'a\n\nb', 'a\r\n\r\nb',
                                    '\n\nFrom: x\n', 'caf\u00e9\r\n',
                                    MAILID + ': 9\n', EXCEPTION + ': x\n\ny',
                                    '\udce9 raw', ' lead\n']),
        st.text(alphabet='ab\n\r ', max_size=8))
    return st.fixed_dictionaries(dict(
        headers=st.lists(st.tuples(st.sampled_from(
            ['Subject', 'From', 'To', 'X-A']), value), min_size=1,
            max_size=4).map(lambda hs: [list(h) for h in hs]),
        eol=st.sampled_from(['\n', '\r\n']), body=body,
        end=st.integers(0, 1), kind=st.integers(0, len(TYPES) - 1),
        message=message, depth=st.integers(0, 3),
        id=st.sampled_from([None, '1', 'abc-1']), positional=st.booleans()))


GROUPS = [
    Group('insert', strategy, check, 2500, 80000,
          nontrivial=['odd message', 'no body', 'lines'],
          rule='The text of a message (LF or CRLF, with or without body) and '
               'an exception whose text has line breaks, control characters, '
               'non-ASCII characters or surrogates; the result is taken apart '
               'and compared with the message; non-trivial if the text of '
               'the exception is odd or the body has lines or is absent.'),
]
ASSUMPTIONS = ['the message has at least one header']
