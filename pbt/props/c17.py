"""C17: annotations say what was computed, and can be removed again."""
import email
import math
import re
from email.header import Header, decode_header

import mail
from lib import Group, ensure, same
from hypothesis import strategies as st

CLASSIFICATION = 'X-Spambayes-Classification'
NAMES = {
    'classification': CLASSIFICATION,
    'score': 'X-Spambayes-Spam-Probability',
    'thermostat': 'X-Spambayes-Level',
    'evidence': 'X-Spambayes-Evidence',
    'id': 'X-Spambayes-MailId',
}
KINDS = ['spam', 'ham', 'unsure']
ALL = {name.lower() for name in NAMES.values()} | {
    'x-spambayes-classification-id', 'x-spambayes-trained'}


def kind_of(p):
    return 'ham' if p < 0.2 else 'spam' if p > 0.9 else 'unsure'


def unfold(value):
    if value is None:
        return None
    if not isinstance(value, str):
        value = value.encode()
    return re.sub(r'\s+', ' ', value.strip())


def headers_of(message):
    return [(k, unfold(v)) for k, v in message.raw_items()]


def body_of(data):
    return re.split(br'\n\n', b'\n' + data, maxsplit=1)[1]


def evidence_items(clues, cutoff):
    result = []
    for word, p in clues:
        if word in (b'*H*', b'*S*') or p <= cutoff or p >= 1 - cutoff:
            if isinstance(word, str):
                word = Header(word, charset='utf-8').encode()
            result.append('%r: %.2f' % (word, p))
    return result


def score_text(p, digits, logarithm):
    """The possible texts of a score."""
    text = '%.*f' % (digits, p)
    if not logarithm:
        return {text}
    result = set()
    if 0 < p <= 0.005:
        x = -math.log10(p)
    elif 0.995 <= p < 1:
        x = -math.log10(1 - p)
    else:
        return {text}
    for y in (x - 1e-9, x + 1e-9):
        result.add('%s (%d)' % (text, y))
    return result


def options_of(case, Classification):
    return dict(
        include_score=case['score'], include_thermostat=case['thermostat'],
        include_evidence=case['evidence'],
        header_score_digits=case['digits'],
        header_score_logarithm=case['logarithm'],
        clue_mailheader_cutoff=case['cutoff'],
        add_unique_id=case['add_id'],
        notate_to=tuple(Classification[k] for k in case['notate_to']) or None,
        notate_subject=(tuple(Classification[k]
                              for k in case['notate_subject']) or None))


def check(case):
    from sbclassifier.message import Classification, from_bytes
    labels = set()
    data = mail.build(dict(headers=case['headers'], body=case['body']))
    message = from_bytes(data, case['id'])
    original = headers_of(message)
    raw = message.as_bytes()
    p, kind = case['prob'], kind_of(case['prob'])
    for _ in range(case['cycles']):
        message.add_sb_headers(p, [tuple(c) for c in case['clues']],
                               **options_of(case, Classification))
        same(message.classification(), Classification[kind],
             'remembered classification of a score of %r' % p)
        added = {'classification': {kind}}
        if case['score']:
            added['score'] = score_text(p, case['digits'], case['logarithm'])
        if case['thermostat']:
            added['thermostat'] = {'*' * int(p * 10 - 1e-9),
                                   '*' * int(p * 10 + 1e-9)}
        if case['add_id'] and case['id'] is not None:
            added['id'] = {case['id']}
        evidence = evidence_items(case['clues'], case['cutoff'])
        names = set(added) | ({'evidence'} if case['evidence'] else set())
        for name, header in NAMES.items():
            values = message.get_all(header, [])
            same(len(values), 1 if name in names else 0,
                 'number of headers ' + header)
            if name in added:
                ensure(values[0] in added[name], '{}: {} instead of {}',
                       header, values[0], sorted(added[name]))
            elif name in names:
                ensure(isinstance(values[0], str) and values[0].isascii(),
                       'evidence {} is not ASCII', values[0])
                same(values[0].replace(';\n\t', '; '), '; '.join(evidence),
                     'evidence')
                # Folded: no long line has several clues.
                for line in values[0].split(';\n\t'):
                    ensure(len(line) <= 110 or line in evidence,
                           'line of evidence is too long: {}', line)
        same({k: unfold(v) for k, v in message.current_sb_headers().items()},
             {NAMES[n]: unfold(message[NAMES[n]]) for n in names},
             'current headers')
        # What a mail client sees once the message is delivered.
        annotated = message.as_bytes()
        delivered = from_bytes(annotated)
        same(headers_of(delivered), headers_of(message),
             'headers as delivered')
        same(body_of(annotated), body_of(raw), 'body as delivered')
        expected = [(k, v) for k, v in headers_of(delivered)
                    if k not in NAMES.values()]
        want = []
        seen = set()
        for k, v in original:
            first = k.lower() not in seen
            seen.add(k.lower())
            if first and k.lower() == 'to' and kind in case['notate_to']:
                v = unfold('%s@spambayes.invalid,%s' % (kind, v))
            if (first and k.lower() == 'subject'
                    and kind in case['notate_subject']):
                v = unfold('%s,%s' % (kind, v))
            want.append((k, v))
        if kind in case['notate_to']:
            labels.add('to')
            if 'to' not in seen:
                want.append(('To', kind + '@spambayes.invalid'))
        if kind in case['notate_subject']:
            labels.add('subject')
            if 'subject' not in seen:
                want.append(('Subject', kind))
        glue = lambda hs: sorted((k.lower(), re.sub(r' *, *', ',', v))
                                 for k, v in hs)
        same(glue(expected), glue(want), 'the other headers')
        # Removed by whoever receives the message...
        delivered.remove_sb_headers()
        same(glue(headers_of(delivered)), glue(original),
             'headers once removed from the delivered message')
        same(body_of(delivered.as_bytes()), body_of(raw),
             'body once removed from the delivered message')
        # ... or by whoever annotated it.
        message.remove_sb_headers()
        same(headers_of(message), original, 'headers once removed')
        same(message.as_bytes(), raw, 'message once removed')
        same(message.current_sb_headers(), {}, 'current headers once removed')
        labels.add(kind)
    if not case['add_id'] or case['id'] is None:
        labels.add('no id')
    return labels


def check_partial(case):
    """Only the notations that are asked to be removed are removed, and text
    that is not a notation stays."""
    from sbclassifier.message import Classification, from_bytes
    subject = case['subject']
    to = case['to']
    headers = [['X-First', '1']]
    if subject is not None:
        headers.append(['Subject', subject])
    if to is not None:
        headers.append(['To', to])
    data = mail.build(dict(headers=headers, body=dict(text='x\n')))
    kinds = tuple(Classification)
    labels = set()

    def strip(value, notations):
        """Without one notation, or None if nothing else is left."""
        if value is None:
            return None
        for n in notations:
            if value == n:
                return None
            if value.startswith(n + ','):
                return value[len(n) + 1:]
        return value

    # All headers of the classifier are removed (whoever added them), and can
    # be restored.
    m = from_bytes(data)
    for name, value in case['headers']:
        m[name] = value
    current = m.current_sb_headers()
    same({k.lower(): v for k, v in current.items()},
         {k.lower(): v for k, v in reversed(case['headers'])
          if k.lower() in ALL}, 'current headers')
    others = [(k, v) for k, v in m.items() if k.lower() not in ALL]
    m.remove_sb_headers(False, False)
    same(m.items(), others, 'headers once removed')
    for name, value in current.items():
        m[name] = value
    same(m.current_sb_headers(), current, 'restored headers')
    if current:
        labels.add('restored')
    for remove_subject in (False, True):
        for remove_to in (False, True):
            m = from_bytes(data)
            m.remove_notations(remove_subject_notations=remove_subject,
                               remove_to_notations=remove_to)
            same(m['Subject'], strip(subject, KINDS) if remove_subject
                 else subject, 'Subject')
            same(m['To'], strip(to, [k + '@spambayes.invalid' for k in KINDS])
                 if remove_to else to, 'To')
            same(m['X-First'], '1', 'X-First')
            if m['Subject'] != subject or m['To'] != to:
                labels.add('removed')
            # Nothing else is done by the function that removes everything.
            m = from_bytes(data)
            m.remove_sb_headers(remove_to_notations=remove_to,
                                remove_subject_notations=remove_subject)
            same(m['Subject'], strip(subject, KINDS) if remove_subject
                 else subject, 'Subject, with the headers')
            same(m['To'], strip(to, [k + '@spambayes.invalid' for k in KINDS])
                 if remove_to else to, 'To, with the headers')
    return labels


def check_classification(case):
    from sbclassifier.message import Classification, from_bytes
    m = from_bytes(b'Subject: x\n\nx\n')
    same(m.classification(), None, 'classification of a new message')
    last = None
    for value in case['values']:
        if isinstance(value, str):
            argument = expected = Classification[value]
        else:
            argument, expected = value, Classification[kind_of(value)]
        same(m.set_classification(argument), expected,
             'returned classification of %r' % value)
        same(m.classification(), expected, 'classification of %r' % value)
        if last is not None and isinstance(value, float):
            order = ['ham', 'unsure', 'spam']
            p, k = last
            a, b = order.index(k), order.index(expected.name)
            ensure(a <= b if p <= value else b <= a,
                   'classifications are not monotonic')
        if isinstance(value, float):
            last = (value, expected.name)
    return {'set'} if case['values'] else set()


probabilities = st.one_of(
    st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.2, 0.9, 0.5, 0.005, 0.995,
                                      1e-10, 1 - 1e-10, 1e-300, 0.3, 0.7,
                                      0.19999999999999998, 0.9000000000000001,
                                      0.99999, 0.996, 0.004]))


def headers():
    plain = st.sampled_from(['x', 'hello world', 'spamming is fun',
                             'a,b', 'hamlet', 'ham: x', 'unsure',
                             '=?utf-8?q?caf=C3=A9?=', b'caf\xe9 \xff',
                             'word ' * 30 + 'end', 'un,sure', 'Spam, eggs',
                             '', '\n folded at once', 'two\n  lines',
                             'tabs\t\n\tand blanks \n ']
                            ).filter(lambda v: v != 'unsure')
    address = st.sampled_from(['a@b.example', '"A, B" <a@b.example>, c@d.test',
                               '', '\n a@b.example,\n\tc@d.test',
                               b'J\xf6rg <j@d.example>', ', '.join(
                                   'u%d@h.example' % i for i in range(20))])

    @st.composite
    def cases(draw):
        result = []
        if draw(st.booleans()):
            result.append(['X-First', draw(plain)])
        if draw(st.integers(0, 3)):
            result.append([draw(st.sampled_from(['Subject', 'subject',
                                                 'SUBJECT'])), draw(plain)])
        if draw(st.integers(0, 3)):
            result.append([draw(st.sampled_from(['To', 'TO'])),
                           draw(address)])
        if draw(st.booleans()):
            result.append(['From', draw(address)])
        order = draw(st.permutations(result))
        return [list(h) for h in order]
    return cases()


def strategy():
    word = st.one_of(
        st.binary(max_size=12), st.text(max_size=8),
        st.sampled_from([b'*H*', b'*S*', b'; ', b"'", 'x: 0.5; y', '\n\n',
                         b'\r\nX-Evil: 1', '\r\nX-Evil: 1', 'caf\u00e9',
                         'subject:' + 'x' * 90, b'url:a.b', '\u2603' * 30]))
    clue = st.tuples(word.filter(lambda w: not isinstance(w, str)
                                 or w.isascii() or all(
                                     not 0xd800 <= ord(c) < 0xe000
                                     for c in w)), probabilities)
    kinds = st.lists(st.sampled_from(KINDS), max_size=3, unique=True)
    body = st.sampled_from([
        dict(data=b'hello\n'), dict(data=b''), dict(data=b'a\n\nb\n\n'),
        dict(data=b'caf\xe9\n'), dict(text='x', type='text/html'),
        dict(multipart='alternative', parts=[
            dict(type='text/plain', text='x'),
            dict(type='text/html', text='<p>x')]),
        dict(type='text/plain', cte='base64', text='hello ' * 30)])
    return st.fixed_dictionaries(dict(
        headers=headers(), body=body, prob=probabilities,
        clues=st.lists(clue, max_size=6), score=st.booleans(),
        thermostat=st.booleans(), evidence=st.booleans(),
        digits=st.integers(0, 6), logarithm=st.booleans(),
        cutoff=st.sampled_from([0.5, 0.5, 0.1, 0.0, 0.25]),
        add_id=st.booleans(),
        id=st.sampled_from([None, '1', '123-4', 'id with blank', 'x' * 60]),
        notate_to=kinds, notate_subject=kinds, cycles=st.integers(1, 2)))


def partial_strategy():
    def values(suffix):
        part = st.sampled_from(KINDS + ['Spam', 'hello', '', 'spam ham',
                                        'hamlet', 'unsur', ' x', '\n x', '\tx'])
        return st.one_of(st.none(), st.lists(
            part.map(lambda s: s + suffix if s in KINDS + ['Spam'] else s),
            min_size=1, max_size=4).map(','.join).filter(
                lambda s: s and s.strip() == s))
    header = st.tuples(st.sampled_from(sorted(NAMES.values()) + [
        CLASSIFICATION + '-ID', 'X-Spambayes-Trained', 'x-spambayes-trained',
        'X-SPAMBAYES-CLASSIFICATION-ID', CLASSIFICATION.lower(),
        'X-Spambayes', 'X-Spambayes-Other', 'Spam-Probability']),
        st.sampled_from(['', 'spam', 'ham', '0.99', '***', 'a\n b']))
    return st.fixed_dictionaries(dict(
        subject=values(''), to=values('@spambayes.invalid'),
        headers=st.lists(header, max_size=4)))


GROUPS = [
    Group('round trip', strategy, check, 1800, 60000,
          nontrivial=['to', 'subject'],
          rule='A message (with or without Subject and To, encoded or raw '
               'non-ASCII headers), a probability, clues of arbitrary words '
               'and every option: the added headers are compared with the '
               'expected ones, in the object and once delivered, and removing '
               'them restores the message; non-trivial if To or Subject '
               'is notated.'),
    Group('partial', partial_strategy, check_partial, 800, 20000,
          nontrivial=['removed'],
          rule='Subject and To headers that begin with (several or no) '
               'notations; every combination of notations to remove; '
               'headers of the classifier, removed and restored; '
               'non-trivial if one is removed.'),
    Group('classification', lambda: st.fixed_dictionaries(dict(
        values=st.lists(st.one_of(probabilities, st.sampled_from(KINDS)),
                        max_size=6))), check_classification, 600, 20000,
          nontrivial=['set'],
          rule='Probabilities and classifications set in sequence; '
               'non-trivial if there is one.'),
]
ASSUMPTIONS = ['the message had no such headers or notations before',
               'message identifiers contain no line breaks']
