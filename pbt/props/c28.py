"""C28: a slurping classifier differs from a plain one only by the pages at
the URLs of the messages."""
import contextlib
import math
import os
import socket
import time

import strat
from lib import Group, ensure, patched, same, scratch, stand_in
from hypothesis import strategies as st

SURE = (0.2, 0.9)       # not strictly between these
EPS = 1e-9


class Web:
    """Stands in for the network: what there is at each URL."""

    def __init__(self):
        self.answers = {}
        self.fetched = []
        self.resolved = []
        self.proxy = None

    def getaddrinfo(self, host, port, *args, **kw):
        self.resolved.append(host)
        for url, answer in self.answers.items():
            if answer[0] == 'unresolved' and host_of(url) == host:
                raise {'unknown': socket.gaierror(-2, 'Not known'),
                       'label': UnicodeError('label empty or too long'),
                       'port': OverflowError('port out of range'),
                       'timeout': socket.timeout('timed out'),
                       'service': socket.gaierror(-8, 'Servname'),
                       }[answer[1]]
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', ('192.0.2.1',
                                                            int(port)))]

    def send(self, adapter, request, stream=False, timeout=None, verify=True,
             cert=None, proxies=None):
        import requests
        proto, url = request.url.split('://', 1)
        if url not in self.answers:
            # Slashes are added to hosts.
            url = url.rstrip('/')
        ensure(proto == 'http' and url in self.answers,
               'fetched {}', request.url)
        ensure(timeout is not None, 'fetched without a timeout')
        ensure((proxies or {}).get('http') == self.proxy,
               'fetched through {}, expected {}', proxies, self.proxy)
        self.fetched.append(url)
        kind, *rest = self.answers[url]
        if kind == 'interrupt':
            raise {'keyboard': KeyboardInterrupt, 'memory': MemoryError,
                   'exit': SystemExit}[rest[0]]()
        if kind == 'error':
            if rest[0].startswith('HTTP Error'):
                # As urllib says it.
                raise requests.exceptions.RequestException(rest[0])
            raise {'connection': requests.exceptions.ConnectionError,
                   'timeout': requests.exceptions.Timeout,
                   'redirects': requests.exceptions.TooManyRedirects,
                   }[rest[0]](rest[0])
        response = requests.Response()
        response.url = request.url
        response.request = request
        if kind == 'status':
            response.status_code = rest[0]
            response.headers['Content-Type'] = 'text/html'
            response._content = b'<html>error page with words</html>'
        else:
            response.status_code = 200
            content_type, text = rest
            if content_type is not None:
                response.headers['Content-Type'] = content_type
            response.headers['X-Server'] = 'Some Server'
            response._content = text.encode('utf-8')
        return response

    @contextlib.contextmanager
    def installed(self):
        from requests.adapters import HTTPAdapter
        web = self

        def send(adapter, *args, **kw):
            return web.send(adapter, *args, **kw)

        environ = {k: os.environ.pop(k) for k in list(os.environ)
                   if k.lower().endswith('_proxy')}
        try:
            with stand_in(socket, getaddrinfo=self.getaddrinfo), \
                    patched(HTTPAdapter, send=send):
                yield
        finally:
            os.environ.update(environ)


def settings(**values):
    """Settings, and no URL left over from another message."""
    from sbclassifier.classifiers import slurping
    if hasattr(slurping, 'slurp_wordstream'):
        values['slurp_wordstream'] = None
    return patched(slurping, **values)


def host_of(url):
    return url.split('/')[0].split(':')[0]


def page_tokens(url, answer):
    """The tokens of what there is at a URL, for the first time."""
    from sbclassifier.message import from_bytes
    from sbclassifier.tokenizer import tokenize
    kind, *rest = answer
    if kind == 'unresolved' or not host_of(url):
        return [b'url:non_resolving']
    if url.split('.')[-1] in ('jpg', 'gif', 'png', 'css', 'js'):
        return [b'url:non_html']
    if kind == 'error' and rest[0].startswith('HTTP Error'):
        return [b'url:http_' + rest[0][11:14].encode('ascii')]
    if kind == 'error':
        return [b'url:unknown_error']
    if kind == 'status':
        return [b'url:http_%d' % rest[0]]
    content_type, text = rest
    if content_type is None or not content_type.startswith('text/html'):
        return [b'url:non_html']
    page = ('Content-Type: %s\r\nX-Server: Some Server\r\n\r\n%s'
            % (content_type, text))
    return list(tokenize(from_bytes(page.encode('utf-8')),
                         basic_header_tokenize=True,
                         basic_header_tokenize_only=True))


def stream(stripper, words, url, ending):
    """The tokens of a message, generated while its text is looked at."""
    text = b''
    if url is not None:
        text = b'see http://' + url.encode('ascii') + ending.encode('ascii')
    yield words[0] if words else b'first'
    _rest, tokens = stripper.analyze(text)
    for word in words[1:]:
        yield word
    for token in tokens:
        yield token


def tokens_of(words, url, ending):
    from sbclassifier.strippers import URLStripper
    return list(stream(URLStripper(), words, url, ending))


def describe(c):
    return (c.nspam, c.nham, {t: (c._wordinfoget(t).spamcount,
                                  c._wordinfoget(t).hamcount)
                              for t in c.wordinfo})


def same_evidence(got, expected, what):
    ensure(abs(got[0] - expected[0]) < EPS, what + ': score {}, expected {}',
           got[0], expected[0])
    got, expected = dict(got[1]), dict(expected[1])
    same(set(got), set(expected), what + ': clues')
    for clue in got:
        ensure(abs(got[clue] - expected[clue]) < EPS,
               what + ': clue {}: {}, expected {}', clue, got[clue],
               expected[clue])


def damage(path, kind):
    try:
        with open(path, 'rb') as f:
            data = f.read()
    except FileNotFoundError:
        return
    with open(path, 'wb') as f:
        f.write({'empty': b'', 'truncated': data[:len(data) // 2],
                 'cut': data[:-1], 'garbage': b'\xff\0garbage',
                 'text': b'no pickle\n', 'class': b'cno.module\nName\n.',
                 'opcode': b'\x80\x04' + b'.' * 3}[kind])


def check(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import slurping
    from sbclassifier.classifiers.slurping import SlurpingClassifier
    from sbclassifier.classifiers.slurping import SlurpingURLStripper
    labels = set()
    web = Web()
    with scratch() as directory:
        cache = os.path.join(directory, 'cache')
        proxy = case['proxy']
        if proxy:
            web.proxy = 'http://%s:%s@%s:%s' % tuple(proxy)
        else:
            proxy = ['', '', '', 8080]
        with settings(X_CACHE_DIRECTORY=cache,
                      PROXY_USERNAME=proxy[0], PROXY_PASSWORD=proxy[1],
                      PROXY_SERVER=proxy[2], PROXY_PORT=proxy[3]), \
                web.installed():
            c, plain = SlurpingClassifier(), Classifier()
            stripper = SlurpingURLStripper()
            known = {}      # what was found at URLs
            for words, is_spam in case['before']:
                c.learn(words, is_spam)
                plain.learn(words, is_spam)
            trained = []
            for i, op in enumerate(case['ops']):
                what = 'operation %d (%s)' % (i, op['op'])
                url = op['url']
                web.answers = {u: tuple(a) for u, a in op['web'].items()}
                page = None
                if url is not None:
                    page = known.get(url)
                    if page is None:
                        page = page_tokens(url, web.answers.get(url))
                words, is_spam = op['words'], op['spam']
                del web.fetched[:]
                del web.resolved[:]
                if op['op'] == 'train':
                    c.learn(stream(stripper, words, url, op['ending']),
                            is_spam)
                    all_tokens = tokens_of(words, url, op['ending'])
                    if page is not None:
                        all_tokens = all_tokens + page
                        slurped = True
                    else:
                        slurped = False
                    plain.learn(all_tokens, is_spam)
                    trained.append((words, url, op['ending'], is_spam))
                elif op['op'] == 'untrain':
                    if not trained:
                        continue
                    words, url, ending, is_spam = trained.pop(
                        op['index'] % len(trained))
                    c.unlearn(stream(stripper, words, url, ending), is_spam)
                    all_tokens = tokens_of(words, url, ending)
                    if url is not None:
                        all_tokens = all_tokens + known[url]
                    plain.unlearn(all_tokens, is_spam)
                    slurped = url is not None
                    labels.add('untrained')
                elif op['op'] == 'restart':
                    state = c.__getstate__()
                    if op['damage'] is not None and os.path.isdir(cache):
                        # The failures that were remembered cannot be read,
                        # and are forgotten.
                        for name in os.listdir(cache):
                            if name.endswith('.pck'):
                                damage(os.path.join(cache, name), op['damage'])
                        known = {u: page for u, page in known.items()
                                 if not (len(page) == 1 and page[0].startswith(
                                     b'url:'))}
                        trained = [t for t in trained
                                   if t[1] is None or t[1] in known]
                        labels.add('damaged')
                    c = SlurpingClassifier()
                    c.__setstate__(state)
                    continue
                else:
                    before = describe(c)
                    tokens = tokens_of(words, url, op['ending'])
                    prob, clues = plain.spamprob(tokens, True)
                    slurped = (url is not None
                               and SURE[0] < prob < SURE[1])
                    if min(abs(prob - s) for s in SURE) < EPS:
                        # A rounding error may decide.
                        continue
                    if slurped:
                        more = page + [w for w, p in clues if
                                       w not in ('*H*', '*S*')]
                        sprob, sclues = plain.spamprob(more, True)
                        if min(abs(sprob - s) for s in SURE) < EPS:
                            continue
                        labels.add('slurped')
                        if not SURE[0] < sprob < SURE[1]:
                            prob, clues = sprob, sclues
                            labels.add('decided')
                    got, got_clues = c.spamprob(
                        stream(stripper, words, url, op['ending']), True)
                    same_evidence((got, got_clues), (prob, clues), what)
                    first = list(web.fetched)
                    ensure(abs(c.spamprob(stream(
                        stripper, words, url, op['ending'])) - prob) < EPS,
                        what + ': another score without evidence')
                    same(web.fetched, first, what + ': fetched again')
                    same(describe(c), before, what + ': training')
                same(describe(c), describe(plain), what + ': training')
                if url is None or known.get(url) == [b'url:non_resolving']:
                    # It is known that there is no such host.
                    same(web.resolved, [], what + ': looked up')
                if url is None or url in known or not slurped:
                    same(web.fetched, [], what + ': fetched')
                else:
                    fetches = (host_of(url) and web.answers[url][0] != 'unresolved'
                               and url.split('.')[-1] not in (
                                   'jpg', 'gif', 'png', 'css', 'js'))
                    same(web.fetched, [url] if fetches else [],
                         what + ': fetched')
                    known[url] = page
                    labels.add(web.answers[url][0] if url in web.answers
                               else 'no host')
                    continue
                if url is not None and slurped:
                    labels.add('cached')
    return labels


WORDS = [b'free', b'cash', b'lunch', b'meet', b'a', b'b', b'\xc3\xa9']
URLS = ['a.test', 'a.test/x', 'b.test:8080/page.html', 'www.c.test/?q=1',
        'd.test/logo.gif', 'd.test/a.css', 'd.test/c.jpg', 'd.test/d.png',
        'd.test/e.js', 'd.test/f.js?x', 'e.test/' + 'x' * 300, 'f.test/%20',
        'a.test/x-y', 'a.test/x/y', 'a.test/X', 'e.test/' + 'x' * 301, '/x', ':80/x', '']
HTML = ['<html>free cash</html>', 'lunch <b>meeting</b>', '', '<p>caf\u00e9',
        'free free cash cash', '<a href="http://other.test/">lunch</a>',
        'From here\n.\n', '<p>free lunch\n' * 6000]


def strategy():
    @st.composite
    def cases(draw):
        answer = st.one_of(
            st.tuples(st.just('page'), st.sampled_from(
                ['text/html', 'text/html; charset=utf-8']),
                st.sampled_from(HTML)),
            st.tuples(st.just('page'), st.sampled_from(
                ['text/html', 'text/html; charset=utf-8']),
                st.sampled_from(HTML)),
            st.tuples(st.just('other'), st.sampled_from(
                [None, 'text/plain', 'image/png', 'application/x-html']),
                st.sampled_from(HTML)),
            st.tuples(st.just('error'), st.sampled_from(
                ['connection', 'timeout', 'redirects', 'HTTP Error 404: Not Found',
                 'HTTP Error 503: Busy'])),
            st.tuples(st.just('status'), st.sampled_from(
                [400, 403, 404, 410, 500, 503])))
        # Hosts that do not exist will not appear.
        lost = draw(st.sets(st.sampled_from(URLS), max_size=2))
        hosts = {host_of(u) for u in lost}
        why = st.sampled_from(['unknown', 'label', 'port', 'timeout',
                               'service'])
        webs = st.fixed_dictionaries({
            u: st.tuples(st.just('unresolved'), why)
            if host_of(u) in hosts else answer
            for u in URLS})
        words = st.lists(st.sampled_from(WORDS), max_size=4)
        # A few URLs are met again and again.
        few = draw(st.lists(st.sampled_from(URLS), min_size=1, max_size=3))
        url = st.one_of(st.none(), st.sampled_from(URLS),
                        *[st.sampled_from(few)] * 4)
        op = st.fixed_dictionaries(dict(
            op=st.sampled_from(['train', 'train', 'score', 'score', 'untrain',
                                'restart']),
            words=words, url=url, spam=st.booleans(), index=st.integers(0, 9),
            ending=st.sampled_from(['', '.', '?!', '/', ')', ':', ' and so']),
            web=st.just(None), damage=st.one_of(
                st.none(), st.sampled_from(
                    ['empty', 'truncated', 'cut', 'garbage', 'text', 'class',
                     'opcode']))))
        web = draw(webs)
        ops = draw(st.lists(op, min_size=1, max_size=9))
        for o in ops:
            if o['url'] == '' and o['ending'] in ('', ' and so'):
                # Without an ending it is no URL.
                o['ending'] = '.'
            # The web may change.
            if draw(st.integers(0, 3)) == 0:
                web = draw(webs)
            o['web'] = web
        before = [([b'free', b'cash', b'meeting'][:draw(st.integers(1, 3))],
                   True),
                  ([b'lunch', b'x-server:server'][:draw(st.integers(1, 2))],
                   False)] * draw(st.sampled_from([0, 2, 5]))
        proxy = draw(st.sampled_from([
            None, None, None, ['me', 'secret', 'proxy.test', 3128]]))
        return dict(ops=ops, before=before, proxy=proxy)
    return cases()


# -- without anything to slurp ----------------------------------------------

def check_plain(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import slurping
    from sbclassifier.classifiers.slurping import SlurpingClassifier
    web = Web()
    with scratch() as directory:
        cache = os.path.join(directory, 'cache')
        with settings(X_CACHE_DIRECTORY=cache), web.installed():
            c = SlurpingClassifier(case['bigrams'])
            plain = Classifier(case['bigrams'])
            trained = []
            for tokens, is_spam, how, kind in case['ops']:
                if kind == 'untrain' and trained:
                    tokens, is_spam = trained.pop()
                    plain.unlearn(list(tokens), is_spam)
                    c.unlearn(strat.as_iterable(tokens, how), is_spam)
                elif kind == 'score':
                    same_evidence(
                        c.spamprob(strat.as_iterable(tokens, how), True),
                        plain.spamprob(list(tokens), True), 'score')
                    ensure(abs(c.spamprob(strat.as_iterable(tokens, how))
                               - plain.spamprob(list(tokens))) < EPS,
                           'another score without evidence')
                else:
                    plain.learn(list(tokens), is_spam)
                    c.learn(strat.as_iterable(tokens, how), is_spam)
                    trained.append((tokens, is_spam))
                same(describe(c), describe(plain), 'training')
            same(web.resolved + web.fetched, [], 'looked up without a URL')
    return {'trained'} if len(case['ops']) > 1 else set()


def plain_strategy():
    @st.composite
    def cases(draw):
        vocabulary = draw(strat.vocabularies(2, 7, ('bytes', 'str')))
        return dict(bigrams=draw(st.booleans()), ops=draw(st.lists(
            st.tuples(strat.messages(vocabulary, 8), st.booleans(),
                      strat.ordered_kinds,
                      st.sampled_from(['train', 'train', 'score',
                                       'untrain'])), min_size=1,
            max_size=8)))
    return cases()


# -- the URL of a message, and URLs made basic ------------------------------

def check_url(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import slurping
    from sbclassifier.strippers import URLStripper
    web = Web()
    text = case['text'].encode('utf-8')
    expected = None
    for proto, guts in case['urls']:
        if proto == 'http':
            expected = guts.rstrip('.:;?!/)')
    web.answers = {expected: ('page', 'text/html', 'free lunch')}
    with scratch() as directory, settings(
            X_CACHE_DIRECTORY=os.path.join(directory, 'cache')), \
            web.installed():
        stripper = slurping.SlurpingURLStripper()
        c, plain = slurping.SlurpingClassifier(), Classifier()
        # The URL of the message before is none of this one.
        stripper.analyze(b'http://left.over')
        same(stripper.analyze(text), URLStripper().analyze(text),
             'what URLs are stripped')
        c.learn([b'word'], True)
        page = ([] if expected is None
                else page_tokens(expected, web.answers[expected]))
        plain.learn([b'word'] + page, True)
        same(describe(c), describe(plain), 'training with %r' % expected)
        stripper.analyze(b'no URL')
        for one in c, plain:
            one.learn([b'other'], True)
        same(describe(c), describe(plain), 'training with a text without one')
    return {'url'} if expected else set()


def url_strategy():
    @st.composite
    def cases(draw):
        urls = draw(st.lists(st.tuples(
            st.sampled_from(['http', 'http', 'https', 'ftp']),
            st.builds(lambda a, b: a + b, st.sampled_from(URLS),
                      st.sampled_from(['', '.', '/', '?!', ')', ').', ';',
                                       '/(x)', ':80'])).filter(bool)),
            max_size=3))
        text = 'text ' + ''.join('%s://%s and ' % u for u in urls)
        return dict(urls=urls, text=text)
    return cases()


def check_base(case):
    from sbclassifier.classifiers import slurping
    from sbclassifier.classifiers.slurping import SlurpingClassifier
    if not hasattr(slurping, 'X_ONLY_SLURP_BASE'):
        return set()
    web = Web()
    labels = case['labels']
    keep = 3 if len(labels[-1]) == 2 else 2
    base = '.'.join(labels[-keep:])
    url = '.'.join(labels) + case['path']
    web.answers = {base: ('page', 'text/html', 'free lunch')}
    prefix = case['prefix']
    with scratch() as directory:
        cache = os.path.join(directory, 'cache')
        with settings(X_CACHE_DIRECTORY=cache, X_ONLY_SLURP_BASE=True,
                      X_WEB_PREFIX=prefix), web.installed():
            c = SlurpingClassifier()
            stripper = slurping.SlurpingURLStripper()
            c.learn(stream(stripper, [b'word'], url, ''), True)
            # (Below a short domain, another host has another base.)
            other = url if len(labels) < keep else 'other.' + url
            c.learn(stream(stripper, [b'word'], other + '/z', ''), True)
            fetched = list(web.fetched)
    page = [prefix.encode() + t
            for t in page_tokens(base, web.answers[base])]
    same(fetched, [base], 'fetched for ' + url)
    for t in page:
        same(c._wordinfoget(t) and c._wordinfoget(t).spamcount, 2,
             'spam count of %r' % t)
    return {'base'} if len(labels) > keep else set()


def base_strategy():
    label = st.sampled_from(['www', 'massey', 'id', 'example', 'a', 'b-c'])
    return st.fixed_dictionaries(dict(
        labels=st.builds(lambda ls, t: ls + t, st.lists(
            label, min_size=1, max_size=3), st.sampled_from(
                [['com'], ['test'], ['ac', 'nz'], ['co', 'uk'],
                          ['x', 'de'], ['de'], ['nz']])),
        path=st.sampled_from(['', '/', '/~x/index.html?you=me', '/a/b.c/d']),
        prefix=st.sampled_from(['', 'web:'])))


# -- pages expire -----------------------------------------------------------

def check_expiry(case):
    from sbclassifier.classifiers import slurping
    from sbclassifier.classifiers.slurping import SlurpingClassifier
    web = Web()
    web.answers = {'a.test': ('page', 'text/html', 'free lunch')}
    with scratch() as directory:
        cache = os.path.join(directory, 'cache')
        with settings(X_CACHE_DIRECTORY=cache), web.installed():
            stripper = slurping.SlurpingURLStripper()
            SlurpingClassifier().learn(stream(stripper, [], 'a.test', ''),
                                       True)
            old = time.time() - case['days'] * 86400
            for name in os.listdir(cache):
                os.utime(os.path.join(cache, name), (old, old))
            SlurpingClassifier().learn(stream(stripper, [], 'a.test', ''),
                                       True)
    limit = getattr(slurping, 'X_CACHE_EXPIRY_DAYS', 7)
    same(len(web.fetched), 2 if case['days'] > limit else 1,
         'fetches of a page %s days old' % case['days'])
    return {'expiry'}


# -- only messages that are unsure and have few clues are enhanced ----------

def check_unsure(case):
    from sbclassifier.classifiers import slurping
    p = case['p']
    if hasattr(slurping, 'is_unsure'):
        same(bool(slurping.is_unsure(p)), SURE[0] < p < SURE[1],
             'whether %r is unsure' % p)
    return {'bound'} if p in SURE else {'near'} if min(
        abs(p - s) for s in SURE) < 1e-6 else set()


def unsure_strategy():
    near = st.builds(
        lambda s, n: s if n == 0 else math.nextafter(s, n) if abs(n) < 2
        else s + n * 1e-9, st.sampled_from(SURE),
        st.integers(-5, 5).map(lambda n: {1: 1.5, -1: -1.5}.get(n, n)))
    return st.fixed_dictionaries(dict(p=st.one_of(
        near, st.floats(0, 1), st.sampled_from([0.0, 0.5, 1.0]))))


def check_many(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import slurping
    from sbclassifier.classifiers.slurping import SlurpingClassifier
    n, spam = case['clues'], case['spam']
    words = [b'w%03d' % i for i in range(n + 4)]
    labels = set()
    web = Web()
    web.answers = {'a.test': ('page', 'text/html',
                              ' '.join('page%d' % i for i in range(40)))}
    page = page_tokens('a.test', web.answers['a.test'])
    with scratch() as directory:
        with settings(X_CACHE_DIRECTORY=os.path.join(
                directory, 'cache')), web.installed():
            c, plain = SlurpingClassifier(), Classifier()
            for one in c, plain:
                # Words of spam and of ham, that balance each other.
                half = (n + spam) // 2
                for _ in range(2):
                    one.learn(words[:half] + (page if case['page'] else []),
                              True)
                    one.learn(words[half:n] + ([] if case['page'] else page),
                              False)
            del web.fetched[:]
            tokens = words + tokens_of([b'x'], 'a.test', '')
            prob, clues = plain.spamprob(tokens, True)
            if min(abs(prob - s) for s in SURE) < EPS:
                return set()
            count = len(clues) - 2
            # (The two entries that are not clues may be counted.)
            if 148 <= count < 150:
                return set()
            slurped = SURE[0] < prob < SURE[1] and count < 150
            if slurped:
                sprob, sclues = plain.spamprob(
                    page + [w for w, _p in clues[2:]], True)
                if min(abs(sprob - s) for s in SURE) < EPS:
                    return set()
                labels.add('slurped')
                if not SURE[0] < sprob < SURE[1]:
                    prob, clues = sprob, sclues
                    labels.add('decided')
            elif count >= 150:
                labels.add('full')
            stripper = slurping.SlurpingURLStripper()
            got = c.spamprob(stream(stripper, words, 'a.test', ''), True)
            same(len(got[1]), len(clues), 'entries of the evidence')
            ensure(abs(got[0] - prob) < EPS, 'score {}, expected {}', got[0],
                   prob)
            same(web.fetched, ['a.test'] if slurped else [], 'fetched')
    return labels


# -- what was found at many URLs is remembered ------------------------------

def check_urls(case):
    from sbclassifier import Classifier
    from sbclassifier.classifiers import slurping
    from sbclassifier.classifiers.slurping import SlurpingClassifier
    labels = set()
    web = Web()
    for i, answer in enumerate(case['answers']):
        web.answers['u%d.test/x' % i] = tuple(answer)
    urls = sorted(web.answers)
    with scratch() as directory:
        with settings(X_CACHE_DIRECTORY=os.path.join(
                directory, 'cache')), web.installed():
            c, plain = SlurpingClassifier(), Classifier()
            stripper = slurping.SlurpingURLStripper()
            for n in range(case['rounds']):
                for i, url in enumerate(urls):
                    what = 'round %d, %s: ' % (n, url)
                    if case['interrupt'] and i == case['at'] % len(urls):
                        # Another message, whose training is interrupted.
                        web.answers['other.test'] = ('interrupt',
                                                     case['interrupt'])
                        before = describe(c)
                        try:
                            c.learn(stream(stripper, [b'lost'], 'other.test',
                                           ''), True)
                        except (KeyboardInterrupt, MemoryError, SystemExit):
                            same(describe(c), before,
                                 what + 'interrupted training')
                            labels.add('interrupted')
                        else:
                            ensure(False, what + 'not interrupted')
                    del web.fetched[:]
                    c.learn(stream(stripper, [b'w'], url, ''), n % 2 == 0)
                    plain.learn(tokens_of([b'w'], url, '') + page_tokens(
                        url, web.answers[url]), n % 2 == 0)
                    if n:
                        same(web.fetched, [], what + 'fetched again')
                    same(describe(c), describe(plain), what + 'training')
                if case['restart']:
                    state = c.__getstate__()
                    c = SlurpingClassifier()
                    c.__setstate__(state)
    if len(urls) > 20:
        labels.add('many')
    if len({tuple(a)[:2] for a in case['answers']}) < len(urls):
        labels.add('alike')
    return labels


def urls_strategy():
    answer = st.one_of(
        st.tuples(st.just('page'), st.just('text/html'),
                  st.sampled_from(HTML[:6])),
        st.tuples(st.just('other'), st.just('image/png'), st.just('x')),
        st.tuples(st.just('error'), st.sampled_from(
            ['connection', 'timeout', 'HTTP Error 404: Not Found'])),
        st.tuples(st.just('status'), st.sampled_from([404, 500])),
        st.tuples(st.just('unresolved'), st.just('unknown')))
    return st.fixed_dictionaries(dict(
        answers=st.one_of(
            st.lists(answer, min_size=2, max_size=5),
            st.tuples(answer, st.integers(2, 4)).map(lambda t: [t[0]] * t[1]),
            st.tuples(st.lists(answer, min_size=1, max_size=3),
                      st.sampled_from([18, 21, 22, 30])).map(
                lambda t: (t[0] * t[1])[:t[1]])),
        rounds=st.integers(2, 3), restart=st.booleans(),
        interrupt=st.sampled_from([None, None, 'keyboard', 'memory', 'exit']),
        at=st.integers(0, 9)))


def many_strategy():
    return st.fixed_dictionaries(dict(
        clues=st.one_of(st.integers(140, 156), st.integers(0, 200)),
        spam=st.integers(-6, 6), page=st.booleans()))


GROUPS = [
    Group('slurp', strategy, check, 1200, 40000,
          nontrivial=['page', 'other', 'error', 'status', 'unresolved',
                      'slurped', 'cached'],
          rule='Histories of training, untraining, scoring and restarting '
               '(possibly with damaged caches of failures) '
               'with messages that have a URL or not, and a web that '
               'changes; a plain classifier that is given the tokens of the '
               'pages too must agree, and nothing may be fetched twice or '
               'without need; non-trivial if a URL is followed.'),
    Group('plain', plain_strategy, check_plain, 600, 20000,
          nontrivial=['trained'],
          rule='Histories without URLs, with and without bigrams, exactly as '
               'with a plain classifier; non-trivial from two operations '
               'on.'),
    Group('url', url_strategy, check_url, 400, 15000, nontrivial=['url'],
          rule='Which URL of a text is followed; non-trivial if there is '
               'one.'),
    Group('base', base_strategy, check_base, 200, 5000, nontrivial=['base'],
          rule='URLs made basic, and prefixes of web tokens; non-trivial if '
               'the URL is not basic already.'),
    Group('unsure', unsure_strategy, check_unsure, 500, 10000,
          nontrivial=['bound', 'near'],
          rule='Whether a score is unsure; non-trivial at or very near the '
               'bounds.'),
    Group('many', many_strategy, check_many, 120, 3000,
          nontrivial=['slurped', 'full'],
          rule='Messages with up to 200 clues: the page is only looked at if '
               'there is room for more; non-trivial if it is looked at, or '
               'not because there is none.'),
    Group('urls', urls_strategy, check_urls, 60, 1500,
          nontrivial=['many', 'alike', 'interrupted'],
          rule='Up to 30 URLs with pages or failures, each met two or three '
               'times, also after a restart: nothing is fetched again; '
               'fetching another one may be interrupted; non-trivial if '
               'there are more than 20, some are alike, or fetching is '
               'interrupted.'),
    Group('expiry', lambda: st.fixed_dictionaries(dict(
        days=st.sampled_from([0.5, 5, 6.9, 7.1, 8, 30]))), check_expiry,
          16, 48, nontrivial=['expiry'],
          rule='A page kept for a number of days.'),
]
ASSUMPTIONS = ['socket.getaddrinfo and the sending of HTTP requests are '
               'replaced; there is no network',
               'every message has one text (see SlurpingURLStripper)',
               'bigrams are only used without URLs']
