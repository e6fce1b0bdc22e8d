"""C20: the identity of a message never changes, and its state is kept."""
import copy
import pickle

import mail
from lib import Group, ensure, expect_raises, same
from hypothesis import strategies as st

RESERVED = ['Statistics start date', 'Persistent statistics']
HEADER = 'X-Spambayes-MailId'
STATES = [None, True, False]


# What is neither a classification nor a probability.
NO_CLASSIFICATION = [None, 'spam', 'ham', 0, 1, 2, True, b'spam', [0.5],
                     '0.5', (1.0,), 1j]


def identifier(s):
    return s not in RESERVED


def alter(message):
    """Change all the parts of a message in place."""
    count = 0
    for part in message.walk():
        part['X-Altered'] = 'yes'
        part.add_header('X-Altered', 'again', name='value')
        if part.is_multipart():
            count += 1
    parts = message.get_payload()
    if isinstance(parts, list) and parts:
        del parts[0]
    else:
        message.set_payload('altered')
    return count


def check(case):
    from sbclassifier.message import (Classification, Message, from_bytes,
                                      from_string)
    labels = set()
    data = case['message']
    first = case['first']
    refused = first in RESERVED
    how = case['how']
    make = {
        'bytes': lambda: from_bytes(data, first),
        'text': lambda: from_string('Subject: x\n\nx\n', first),
        'constructor': lambda: Message(first),
    }[how]
    if refused:
        expect_raises(ValueError, make)
        return {'refused'}
    message = make()
    current, classification, trained = first, None, None
    for op in case['ops']:
        kind, value = op['op'], op['value']
        if kind == 'set':
            if not isinstance(value, str):
                expect_raises((TypeError, ValueError), message.set_id, value)
                labels.add('refused')
            elif value == '' and current is None:
                pass
            elif value in RESERVED or (current is not None
                                       and value != current):
                expect_raises(ValueError, message.set_id, value)
                labels.add('refused')
            else:
                message.set_id(value)
                current = value
        elif kind == 'header':
            del message[HEADER]
            if op['present']:
                message[HEADER] = op['text']
                wanted = op['text']
            else:
                wanted = None
            result = message.set_id_from_payload()
            if (wanted is None or wanted in RESERVED
                    or not wanted.isascii()
                    or (current is not None and wanted != current)):
                same(result, None, 'identifier taken from the header')
                labels.add('refused')
            else:
                same(result, wanted, 'identifier taken from the header')
                current = wanted
        elif kind == 'classify':
            classification = Classification[op['kind']]
            message.set_classification(classification)
        elif kind == 'misclassify':
            expect_raises((TypeError, ValueError),
                          message.set_classification,
                          NO_CLASSIFICATION[op['trained'] * 3
                                            + op['protocol'] - 2])
            labels.add('refused')
        elif kind == 'annotate':
            del message[HEADER]
            message.add_sb_headers(op['prob'], [])
            classification = message.classification()
            same(message.get_all(HEADER), None if current is None
                 else [current], 'identifier header')
        elif kind == 'train':
            trained = STATES[op['trained']]
            message.remember_trained(trained)
        elif kind == 'copy':
            other = copy.deepcopy(message)
            same(other.as_bytes(), message.as_bytes(), 'copied message')
            if current is None:
                other.set_id('other')
                same(message.id(), None, 'identifier of the original')
                other = copy.deepcopy(message)
            other.remember_trained(not trained)
            same(message.is_trained(), trained, 'training of the original')
            other['X-New'] = '1'
            ensure('X-New' not in message, 'the copy is the original')
            before = message.as_bytes()
            if alter(other):
                same(message.as_bytes(), before,
                     'original of a copy that was changed')
                labels.add('altered')
            other = copy.deepcopy(message)
            same(other.as_bytes(), before, 'second copy')
            alter(message)
            same(other.as_bytes(), before,
                 'copy of a message that was changed')
            message = copy.deepcopy(other)
            labels.add('copied')
        elif kind == 'pickle':
            # The persistent state of a message is that of its bookkeeping.
            other = pickle.loads(pickle.dumps(message, op['protocol']))
            same((other.id(), other.classification(), other.is_trained()),
                 (current, classification, trained), 'unpickled message')
            if current is not None:
                expect_raises(ValueError, other.set_id, current + 'x')
            labels.add('pickled')
        elif kind == 'write':
            if how != 'constructor':
                message.as_bytes()
                message.as_string()
                repr(message)
        same(message.id(), current, 'identifier after ' + kind)
        same(message.classification(), classification,
             'classification after ' + kind)
        same(message.is_trained(), trained, 'training after ' + kind)
    return labels


def parts_messages():
    inner = st.sampled_from([
        b'Content-Type: text/plain\n\none two\n',
        b'Content-Type: text/html\n\n<b>three</b>\n', b'\nfour\n',
        b'Content-Type: message/rfc822\n\nSubject: inner\n\nfive\n',
        b'Content-Type: multipart/alternative; boundary=i\n\n--i\n\nsix\n'
        b'--i\nContent-Type: text/html\n\nseven\n--i--\n'])
    return st.builds(
        lambda parts: b'Subject: parts\nMIME-Version: 1.0\nContent-Type: '
        b'multipart/mixed; boundary=o\n\n' + b''.join(
            b'--o\n' + p + b'\n' for p in parts) + b'--o--\n',
        st.lists(inner, min_size=1, max_size=3))


def strategy():
    ids = st.sampled_from(['1', 'a', '123-4', 'Statistics', 'caf\u00e9']
                          + RESERVED)
    ids = st.one_of(ids, st.text(alphabet='ab1', min_size=1, max_size=2),
                    st.text(alphabet='aA1.- \u00e9', min_size=1, max_size=2))
    op = st.fixed_dictionaries(dict(
        op=st.sampled_from(['set', 'set', 'header', 'header', 'classify',
                            'annotate', 'train', 'misclassify', 'copy', 'pickle', 'write']),
        value=st.one_of(ids, ids, ids, st.sampled_from([None, 5, b'a', '', 0, False])),
        text=st.sampled_from(['1', 'a', '123-4', 'b', 'a\udce9']
                             + RESERVED),
        present=st.sampled_from([True, True, False]),
        kind=st.sampled_from(['spam', 'ham', 'unsure']),
        prob=st.floats(0, 1), trained=st.integers(0, 2),
        protocol=st.integers(2, 5)))
    cases = st.fixed_dictionaries(dict(
        message=st.one_of(mail.simple_messages(4), parts_messages()), near=st.integers(0, 3),
        how=st.sampled_from(['bytes', 'text', 'constructor']),
        first=st.one_of(st.none(), ids), ops=st.lists(op, max_size=10)))

    def adapt(case):
        # Some of the identifiers are almost that of the message.
        first = case['first']
        if first is not None and first not in RESERVED and case['near']:
            variants = [first.upper(), first.lower(), first + ' ',
                        ' ' + first, first + '\0', '<%s>' % first,
                        first.replace('\u00e9', 'e\u0301')]
            for i, op in enumerate(case['ops']):
                if op['op'] == 'set' and isinstance(op['value'], str):
                    op['value'] = variants[(case['near'] * 3 + i)
                                           % len(variants)]
        return case
    return cases.map(adapt)


GROUPS = [
    Group('history', strategy, check, 2000, 60000,
          nontrivial=['refused', 'copied', 'pickled', 'altered'],
          rule='A message made in one of three ways, whose identifier is set '
               'directly or from its header, and that is classified, '
               'annotated, remembered as trained, copied, pickled and '
               'written; identifier, classification and training are compared '
               'with the expectation after each step; non-trivial if an '
               'identifier is refused or the message is copied or pickled. Copies '
               'and originals are altered in all parts.'),
]
ASSUMPTIONS = ['identifiers are not empty']
