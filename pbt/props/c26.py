"""C26: an IP address stands for the subnets it is in."""
import ipaddress

from lib import Group, ensure, same
from hypothesis import strategies as st

DEFAULT = (8, 16, 24, 32)


def network(number, bits, length):
    """The text of a subnet, from the bits of an address."""
    kept = number >> (bits - length) << (bits - length)
    if bits == 32:
        text = '.'.join(str(kept >> shift & 255) for shift in (24, 16, 8, 0))
    else:
        text = str(ipaddress.IPv6Address(kept))
    return '%s/%d' % (text, length)


def address_of(number, bits):
    if bits == 32:
        return ipaddress.IPv4Address(number)
    return ipaddress.IPv6Address(number)


def check(case):
    from sbclassifier.iputils import gen_dotted_quad_clues, subnets
    bits = case['bits']
    numbers = [n % (1 << bits) for n in case['numbers']]
    lengths = case['lengths']
    if lengths is not None:
        lengths = [n % (bits + 1) for n in lengths]
    results = []
    for number in numbers:
        address = address_of(number, bits)
        expected = [network(number, bits, n)
                    for n in (DEFAULT if lengths is None else lengths)]
        forms = [address, str(address)]
        if bits == 128:
            # Other ways to write it.
            forms += [address.exploded, str(address).upper()]
        for form in forms:
            if lengths is None:
                got = list(subnets(form))
            elif case['keyword']:
                got = list(subnets(form, prefix_lengths=lengths))
            else:
                got = list(subnets(form, lengths))
            same([str(n) for n in got], expected,
                 'subnets of %s (%s)' % (address, lengths))
            ensure(all(address in n for n in got),
                   '{} is not in its subnets {}', address, got)
            clues = list(gen_dotted_quad_clues(case['prefix'], form))
            same(clues, ['%s:%s' % (case['prefix'], network(number, bits, n))
                         for n in DEFAULT], 'clues of %s' % address)
        results.append(expected)
    # Two addresses share a subnet if and only if they share its bits.
    if len(numbers) == 2:
        for i, n in enumerate(DEFAULT if lengths is None else lengths):
            same(results[0][i] == results[1][i],
                 numbers[0] >> (bits - n) == numbers[1] >> (bits - n),
                 'whether %s and %s share a subnet of %d bits'
                 % (address_of(numbers[0], bits), address_of(numbers[1], bits),
                    n))
    labels = {'v4' if bits == 32 else 'v6'}
    if lengths is not None:
        labels.add('lengths')
    if len(numbers) == 2:
        labels.add('pair')
    return labels


def strategy():
    @st.composite
    def cases(draw):
        bits = draw(st.sampled_from([32, 32, 128]))
        number = draw(st.one_of(
            st.integers(0, (1 << bits) - 1),
            st.sampled_from([0, (1 << bits) - 1, 0x7f000001, 0x0a0000ff,
                             1 << (bits - 1), 255, 256, 65535, 65536])))
        numbers = [number]
        if draw(st.booleans()):
            # One that agrees on some of the first bits.
            numbers.append(number ^ draw(st.integers(0, (1 << bits) - 1))
                           >> draw(st.integers(0, bits)))
        return dict(bits=bits, numbers=numbers,
                    lengths=draw(st.one_of(st.none(), st.lists(
                        st.integers(0, 128), max_size=5))),
                    keyword=draw(st.booleans()),
                    prefix=draw(st.sampled_from(
                        ['', 'nntp-host', 'a:b', 'url-ip', '%s', '{}'])))
    return cases()


GROUPS = [
    Group('subnets', strategy, check, 4000, 200000,
          nontrivial=['pair', 'lengths'],
          rule='One or two IPv4 or IPv6 addresses that share some of their '
               'bits, as text and as objects, with default or given prefix '
               'lengths; the subnets and clues must be those computed from '
               'the bits; non-trivial if there are two addresses or prefix '
               'lengths are given.'),
]
ASSUMPTIONS = []
