"""C27: DNS lookups never fail, and do not change the default timeout."""
import contextlib
import ipaddress
import socket
import threading

import mail
from lib import Group, HarnessError, Violation, diff_sets, ensure, patched, same
from lib import stand_in
from hypothesis import strategies as st
from props.c26 import network
from tokens import header_tokens

ERRORS = {
    'gaierror': lambda: socket.gaierror(-2, 'Name or service not known'),
    'herror': lambda: socket.herror(1, 'Unknown host'),
    'timeout': lambda: socket.timeout('timed out'),
    'oserror': lambda: OSError(101, 'Network is unreachable'),
    'refused': lambda: ConnectionRefusedError(111, 'refused'),
    'permission': lambda: PermissionError(1, 'Operation not permitted'),
    'unicode': lambda: UnicodeError('label empty or too long'),
    'encode': lambda: UnicodeEncodeError('idna', 'x', 0, 1, 'too long'),
}
FATAL = {'interrupt': KeyboardInterrupt}


class Resolver:
    """Stands in for the functions of the socket module."""

    def __init__(self, forward, backward):
        self.forward, self.backward = forward, backward
        self.timeouts = []

    def answer(self, table, key):
        self.timeouts.append(socket.getdefaulttimeout())
        result = table.get(key, 'gaierror')
        if isinstance(result, str):
            if result in FATAL:
                raise FATAL[result]()
            raise ERRORS[result]()
        return result

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        result = []
        for address in self.answer(self.forward, host):
            for kind in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                if ':' in address:
                    result.append((socket.AF_INET6, kind, 6, '',
                                   (address, port, 0, 0)))
                else:
                    result.append((socket.AF_INET, kind, 6, '',
                                   (address, port)))
        return result

    def gethostbyaddr(self, address):
        names = self.answer(self.backward, str(address))
        return names[0], names[1:], [str(address)]

    def gethostbyname_ex(self, host):
        return host, [], [a for a in self.answer(self.forward, host)
                          if ':' not in a]

    def gethostbyname(self, host):
        return self.gethostbyname_ex(host)[2][0]

    def getnameinfo(self, sockaddr, flags):
        return self.answer(self.backward, sockaddr[0])[0], str(sockaddr[1])

    def getfqdn(self, name=''):
        try:
            return self.gethostbyaddr(name)[0]
        except OSError:
            return name

    @contextlib.contextmanager
    def installed(self):
        names = ('getaddrinfo', 'gethostbyaddr', 'gethostbyname_ex',
                 'gethostbyname', 'getnameinfo', 'getfqdn')
        with stand_in(socket, **{n: getattr(self, n) for n in names}):
            yield self


def check_lookups(case):
    from sbclassifier import dnsutils
    resolver = Resolver(case['forward'], case['backward'])
    labels = set()
    previous = socket.getdefaulttimeout()
    try:
        with resolver.installed():
            for what, key, timeout in case['lookups']:
                socket.setdefaulttimeout(timeout)
                if what == 'forward':
                    table, f = case['forward'], dnsutils.dns_lookup
                else:
                    table, f = case['backward'], dnsutils.reverse_dns_lookup
                answer = table.get(key, 'gaierror')
                fatal = isinstance(answer, str) and answer in FATAL
                title = '%s lookup of %s (%s)' % (what, key, answer)
                del resolver.timeouts[:]
                try:
                    got = f(key)
                except KeyboardInterrupt:
                    if not fatal:
                        raise Violation(title + ': interrupted')
                    labels.add('interrupted')
                except Exception as e:
                    raise Violation('%s: %r' % (title, e))
                else:
                    ensure(not fatal, title + ': no exception')
                    if isinstance(answer, str):
                        same(len(got), 0, title)
                        labels.add(answer)
                    else:
                        same(sorted(got), sorted(
                            set(answer) if what == 'forward'
                            else answer[:1]), title)
                        labels.add('found')
                same(socket.getdefaulttimeout(), timeout,
                     title + ': the default timeout afterwards')
                limit = getattr(dnsutils, 'DEFAULT_TIMEOUT', 10)
                for seconds in resolver.timeouts:
                    ensure(seconds is not None and 0 < seconds <= limit,
                           title + ': waits for up to {} seconds', seconds)
    finally:
        socket.setdefaulttimeout(previous)
    return labels


class Gate(Resolver):
    """A resolver whose lookups end when they are told to."""

    def __init__(self, answers):
        super().__init__('1.2.3.4', 'a.test')
        self.answers = answers
        self.entered = {k: threading.Event() for k in answers}
        self.leave = {k: threading.Event() for k in answers}
        self.timeouts = {}

    def answer(self, table, key):
        self.timeouts[key] = [socket.getdefaulttimeout()]
        self.entered[key].set()
        if not self.leave[key].wait(20):
            raise HarnessError('a lookup was not told to end')
        self.timeouts[key].append(socket.getdefaulttimeout())
        if self.answers[key] is not None:
            raise ERRORS[self.answers[key]]()
        return [table]


def check_threads(case):
    """Lookups at the same time, in several threads."""
    from sbclassifier import dnsutils
    keys = ['%s%d' % ('n' if forward else '10.0.0.', i)
            for i, (forward, _answer) in enumerate(case['lookups'])]
    gate = Gate({k: answer for k, (_f, answer) in zip(keys, case['lookups'])})
    results = {}
    limit = getattr(dnsutils, 'DEFAULT_TIMEOUT', 10)
    labels = set()

    def run(key, forward):
        try:
            results[key] = (dnsutils.dns_lookup if forward
                            else dnsutils.reverse_dns_lookup)(key)
        except BaseException as e:
            results[key] = e

    running, most = {}, 0
    waiting = list(zip(keys, case['lookups']))
    previous = socket.getdefaulttimeout()
    socket.setdefaulttimeout(case['timeout'])
    try:
        with gate.installed():
            try:
                for n in case['schedule'] + [0] * len(keys):
                    if waiting and (n % 2 or not running):
                        key, (forward, _answer) = waiting.pop(0)
                        t = threading.Thread(target=run, args=(key, forward),
                                             daemon=True)
                        running[key] = t
                        t.start()
                        # One that waits for the others is all right.
                        if not gate.entered[key].wait(
                                0.2 if len(running) > 1 else 20):
                            labels.add('one at a time')
                    elif running:
                        key = sorted(running)[n // 2 % len(running)]
                        gate.leave[key].set()
                        if gate.entered[key].is_set():
                            t = running.pop(key)
                            t.join(20)
                            ensure(not t.is_alive(), 'a lookup does not end')
                    most = max(most, len(running))
                    if not running:
                        same(socket.getdefaulttimeout(), case['timeout'],
                             'default timeout while nothing is looked up')
            finally:
                for e in gate.leave.values():
                    e.set()
                for t in running.values():
                    t.join(20)
        same(socket.getdefaulttimeout(), case['timeout'],
             'default timeout after lookups in threads')
        for key, (forward, answer) in zip(keys, case['lookups']):
            if key not in results:
                continue
            got = results[key]
            ensure(not isinstance(got, BaseException), 'lookup raised {}', got)
            same(list(got), [] if answer else
                 ['1.2.3.4' if forward else 'a.test'], 'answer')
            for seconds in gate.timeouts[key]:
                ensure(seconds is not None and 0 < seconds <= limit,
                       'a lookup waits for up to {} seconds', seconds)
    finally:
        socket.setdefaulttimeout(previous)
    if most > 1:
        labels.add('at the same time')
    return labels


def threads_strategy():
    lookup = st.tuples(st.booleans(), st.sampled_from(
        [None, None, 'gaierror', 'timeout', 'unicode']))
    return st.fixed_dictionaries(dict(
        lookups=st.lists(lookup, min_size=1, max_size=4),
        timeout=st.sampled_from([None, 3.0, 60.0]),
        schedule=st.lists(st.integers(0, 9), max_size=12)))


NAMES = ['a.test', 'news.a.test', 'x.y.z.example.org', 'localhost', 'B.test',
         'dsl-7.pool.b.ras3.a.b.c.d.e.f.example.net', 'caf\u00e9.test', '..', 'x' * 70 + '.test', '']
ADDRESSES = ['1.2.3.4', '1.2.3.5', '10.0.0.1', '255.255.255.255', '::1',
             '2001:db8::1', '1.2.200.4']


def tables(fatal=True):
    errors = st.sampled_from(sorted(ERRORS) * 2
                             + (sorted(FATAL) if fatal else []))
    addresses = st.lists(st.sampled_from(ADDRESSES), min_size=1, max_size=3)
    names = st.lists(st.sampled_from(NAMES[:5]), min_size=1, max_size=2)
    return dict(
        forward=st.fixed_dictionaries({n: st.one_of(
            addresses, addresses, errors) for n in NAMES}),
        backward=st.fixed_dictionaries({a: st.one_of(
            names, names, errors) for a in ADDRESSES}))


def lookups_strategy():
    timeout = st.sampled_from([None, None, 0.5, 3.0, 60.0, 0.0])
    lookup = st.one_of(
        st.tuples(st.just('forward'), st.sampled_from(NAMES), timeout),
        st.tuples(st.just('backward'), st.sampled_from(ADDRESSES + NAMES),
                  timeout))
    return st.fixed_dictionaries(dict(
        lookups=st.lists(lookup, min_size=1, max_size=6), **tables()))


# -- the clues of a posting host --------------------------------------------

def host_clues(case, host):
    """(clues, clues that there may be)"""
    host = host.strip()
    try:
        address = ipaddress.ip_address(host)
    except ValueError:
        pass
    else:
        names = case['backward'].get(host, 'gaierror')
        clues = nets('nntp-host', address)
        if not isinstance(names, str):
            clues += ['nntp-host-ip:has-reverse', 'nntp-host-name:' + names[0],
                      'nntp-host-domain:' + top_two(names[0])]
        return clues, []
    clues = ['nntp-host-name:' + host, 'nntp-host-domain:' + top_two(host)]
    addresses = case['forward'].get(host, 'gaierror')
    if isinstance(addresses, str):
        return clues, []
    back = []
    for a in addresses:
        clues += nets('nntp-host-ip', ipaddress.ip_address(a))
        names = case['backward'].get(a, 'gaierror')
        back.append(not isinstance(names, str) and names[0] == host)
    reverse = ['nntp-host-ip:has-reverse']
    if all(back):
        return clues + reverse, []
    return clues, reverse if any(back) else []


def nets(prefix, address):
    return ['%s:%s' % (prefix, network(int(address), address.max_prefixlen, n))
            for n in (8, 16, 24, 32)]


def top_two(name):
    return '.'.join(name.split('.')[-2:])


def check_hosts(case):
    from sbclassifier import tokenizer
    from sbclassifier.message import from_bytes
    if not hasattr(tokenizer, 'X_MINE_NNTP_HEADERS'):
        return set()
    message = dict(headers=[['NNTP-Posting-Host', h] for h in case['hosts']])
    parsed = from_bytes(mail.build(message))
    required, optional = set(), set()
    labels = set()
    for host in case['hosts']:
        clues, maybe = host_clues(case, host)
        required.update(clues)
        optional.update(maybe)
        labels.add('resolved' if len(clues) > 4 else 'unresolved')
    expected = header_tokens(message, {}) | {
        c.encode('utf-8') for c in required}
    resolver = Resolver(case['forward'], case['backward'])
    with resolver.installed(), patched(tokenizer, X_MINE_NNTP_HEADERS=True):
        got = set(tokenizer.tokenize(parsed))
    diff_sets(got - ({c.encode('utf-8') for c in optional} - expected),
              expected, 'tokens of posting hosts %s' % case['hosts'])
    # Nothing is looked up unless asked to.
    del resolver.timeouts[:]
    with resolver.installed():
        got = set(tokenizer.tokenize(parsed))
    same(resolver.timeouts, [], 'lookups although hosts are not mined')
    diff_sets(got, header_tokens(message, {}), 'tokens without mining')
    return labels


def hosts_strategy():
    host = st.one_of(st.sampled_from([n for n in NAMES if n.isascii() and n]),
                     st.sampled_from(ADDRESSES),
                     st.sampled_from(['1.2.3', '256.1.1.1', '1.2.3.4.5',
                                      ' 1.2.3.4 ', 'unknown host']))
    return st.fixed_dictionaries(dict(
        hosts=st.lists(host, min_size=1, max_size=2), **tables(fatal=False)))


GROUPS = [
    Group('lookups', lookups_strategy, check_lookups, 2400, 80000,
          nontrivial=['found'] + sorted(ERRORS) + ['interrupted'],
          rule='Histories of forward and reverse lookups with a resolver that '
               'finds something, fails in one of eight ways or is '
               'interrupted, under several default timeouts; results must be '
               'those of the resolver or empty, waiting limited and the '
               'default timeout restored; every history counts.'),
    Group('threads', threads_strategy, check_threads, 400, 10000,
          nontrivial=['at the same time'],
          rule='Lookups in several threads that begin and end in any order; '
               'while one waits its time is limited, and at the end the '
               'default timeout is what it was; non-trivial if two lookups '
               'wait at the same time.'),
    Group('hosts', hosts_strategy, check_hosts, 1200, 40000,
          nontrivial=['resolved'],
          rule='Messages with posting hosts, and a table of DNS entries; the '
               'tokens must be those of the documented clues; non-trivial if '
               'an entry exists.'),
]
ASSUMPTIONS = ['the functions of the socket module are replaced; there is no '
               'network',
               'a name with several addresses of which only some resolve back '
               'may have the has-reverse clue or not']
