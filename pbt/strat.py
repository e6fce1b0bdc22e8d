"""Strategies that several property modules share."""
import random

from lib import Violation
from hypothesis import strategies as st

iterable_kinds = st.sampled_from(['list', 'tuple', 'generator', 'iterator',
                                  'set', 'dict'])
ordered_kinds = st.sampled_from(['list', 'tuple', 'generator', 'iterator'])


def as_iterable(tokens, how):
    if how == 'tuple':
        return tuple(tokens)
    if how == 'generator':
        return (t for t in tokens)
    if how == 'iterator':
        return iter(list(tokens))
    if how == 'set':
        return set(tokens)
    if how == 'dict':
        return dict.fromkeys(tokens)
    return list(tokens)


def unchanged(stream, tokens, how, what):
    """Whatever was done with `stream`, it still has these tokens."""
    if how in ('list', 'tuple', 'set', 'dict'):
        expected = as_iterable(tokens, how)
        if type(stream) is not type(expected) or stream != expected:
            raise Violation('%s changed the tokens it was given: %r instead '
                            'of %r' % (what, stream, expected))


class BrokenOff(Exception):
    pass


def broken_off(tokens, n):
    """Generates the first n tokens, and then fails."""
    for t in list(tokens)[:n]:
        yield t
    raise BrokenOff('no more tokens')


def arrange(tokens, n):
    """The same set of tokens in another arrangement."""
    tokens = list(tokens)
    if n == 0:
        return tokens
    r = random.Random(n)
    if n >= 3 and tokens:
        tokens = tokens + [r.choice(tokens) for _ in range(3)]
    r.shuffle(tokens)
    return tokens


WORDS = ['free', 'money', 'a', '', ' ', 'saved state', 'bi:a b', 'url:',
         'subject:x', 'caf\u00e9', '\u2603', '\U0001f4b0', 'x' * 60, '\0',
         '\0saved state', 'saved states', 'saved stat', 'Saved state',
         ' saved state', '\0\0saved state', '5,1', 'k=v', '*H*', 'nspam', 'None', '\n', '"']


def str_tokens():
    return st.one_of(
        st.sampled_from(WORDS),
        st.text(alphabet='abc', min_size=1, max_size=3),
        st.text(alphabet=st.characters(blacklist_categories=['Cs']),
                max_size=6))


def bytes_tokens():
    return st.one_of(
        st.sampled_from(WORDS).map(lambda s: s.encode('utf-8')),
        st.text(alphabet='abc', min_size=1, max_size=3).map(str.encode),
        st.binary(max_size=6))


def vocabularies(min_size, max_size, kinds=('str', 'bytes')):
    """Lists of distinct tokens, either all str or all bytes."""
    options = []
    if 'str' in kinds:
        options += [st.lists(str_tokens(), min_size=min_size,
                             max_size=max_size, unique=True)] * 5
        options.append(similar(SIMILAR, min_size, max_size))
    if 'bytes' in kinds:
        options += [st.lists(bytes_tokens(), min_size=min_size,
                             max_size=max_size, unique=True)] * 5
        options.append(similar([s.encode() for s in SIMILAR], min_size,
                               max_size))
    return st.integers(0, len(options) - 1).flatmap(lambda i: options[i])


# Tokens that a store could take for one another, or for its own record.
SIMILAR = ['saved state', '\0saved state', '\0\0saved state',
           '\0\0\0saved state', 'saved state\0', 'saved states', 'free',
           'Free', 'free ', 'a']


def similar(tokens, min_size, max_size):
    return st.lists(st.sampled_from(tokens), min_size=min(min_size, 8),
                    max_size=min(max_size, len(tokens)), unique=True)


def messages(vocab, max_size):
    return st.lists(st.sampled_from(vocab), max_size=max_size)


# In some cases, each token stands for many.
sizes = st.sampled_from([1] * 14 + [40, 300])


def enlarge(tokens, n):
    """Replaces each token by n tokens."""
    result = []
    for t in tokens:
        result.append(t)
        for i in range(1, n):
            suffix = '~%d' % i
            result.append(t + (suffix if isinstance(t, str)
                               else suffix.encode()))
    return result
