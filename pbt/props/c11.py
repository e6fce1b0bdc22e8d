"""C11: pickle files are only read and written under a lock, then released."""
import os
import socket
import sys
import threading
import time

from lib import Group, Violation, ensure, expect_raises, same
from lib import patched, scratch
from hypothesis import strategies as st
import strat


def check_released(case):
    """Whatever happens, the lock is not held afterwards, and is not looked
    for again."""
    from lockfile import FileLock
    from sbclassifier.classifiers import PickleClassifier
    from sbclassifier.safepickle import pickle_read, pickle_write
    labels = set()
    with scratch() as directory:
        path = os.path.join(directory, case['name'])
        current = None
        c = None
        for op, value in case['ops']:
            kind = op
            if op == 'write':
                pickle_write(path, value)
                current = value
            elif op == 'bad':
                expect_raises(Exception, pickle_write, path,
                              [value, lambda: 0])
                labels.add('failure')
            elif op == 'read':
                if current is None:
                    expect_raises(FileNotFoundError, pickle_read, path)
                    labels.add('failure')
                elif current == 'classifier':
                    same(pickle_read(path).nspam, 1, 'spam messages')
                else:
                    same(pickle_read(path), current, 'value')
            elif op == 'garbage':
                with open(path, 'wb') as f:
                    f.write(b'\x80garbage')
                expect_raises(Exception, pickle_read, path)
                expect_raises(Exception, PickleClassifier, path)
                os.remove(path)
                current = None
                labels.add('failure')
            elif op == 'store':
                if current is not None:
                    os.remove(path)
                c = PickleClassifier(path)
                c.learn(['x'], True)
                c.store()
                c.load()
                current = 'classifier'
            ensure(not FileLock(path).is_locked(), 'locked after ' + kind)
            same(sorted(os.listdir(directory)),
                 [case['name']] if current is not None else [],
                 'files after ' + kind)
            # Another process could have the lock at once.
            lock = FileLock(path)
            lock.acquire(timeout=-1)
            lock.release()
    return labels


def check_held(case):
    """While another process holds the lock, nothing is read or written."""
    from lockfile import FileLock
    from sbclassifier.classifiers import PickleClassifier
    from sbclassifier.safepickle import pickle_read, pickle_write
    labels = set()
    with scratch() as directory:
        path = os.path.join(directory, 'db')
        pickle_write(path, ['old'])
        stored = os.path.join(directory, 'classifier')
        c = PickleClassifier(stored)
        c.learn(['x'], True)
        c.store()
        c.learn(['y'], True)
        before = {p: open(p, 'rb').read() for p in (path, stored)}
        locked, release = threading.Event(), threading.Event()

        def holder():
            # The lock belongs to one thread of one process.
            locks = [FileLock(path), FileLock(stored)]
            for lock in locks:
                lock.acquire(timeout=30)
            locked.set()
            release.wait(60)
            for lock in locks:
                lock.release()

        results = {}

        def operation(name):
            try:
                if name == 'read':
                    result = pickle_read(path)
                elif name == 'write':
                    result = pickle_write(path, ['new'])
                elif name == 'store':
                    result = c.store()
                elif name == 'open':
                    result = PickleClassifier(stored).nspam
                results[name] = (released_at is not None, result)
            except BaseException as e:
                results[name] = (released_at is not None, e)

        released_at = None
        thread = threading.Thread(target=holder)
        thread.start()
        ensure(locked.wait(40), 'the lock cannot be acquired')
        names = case['operations']
        threads = [threading.Thread(target=operation, args=(n,))
                   for n in names]
        for t in threads:
            t.start()
        time.sleep(case['seconds'])
        ensure(not results, 'done while locked by somebody else: {}', results)
        same({p: open(p, 'rb').read() for p in (path, stored)}, before,
             'files while locked by somebody else')
        released_at = time.monotonic()
        release.set()
        thread.join()
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise Violation('still waiting 60 seconds after the release')
        for n in names:
            after, result = results[n]
            ensure(after, '{} finished before the lock was released', n)
            if n == 'read':
                ensure(result == ['old'] or 'write' in names
                       and result == ['new'], 'value {} read', result)
            elif n == 'open':
                ensure(result == 1 or 'store' in names and result == 2,
                       '{} spam messages', result)
            else:
                same(result, None, 'result of ' + n)
        if 'write' in names:
            same(pickle_read(path), ['new'], 'value')
        if 'store' in names:
            same(PickleClassifier(stored).nspam, 2, 'stored spam messages')
        for p in (path, stored):
            ensure(not FileLock(p).is_locked(), 'still locked')
        labels.add('held')
    return labels


def check_timeout(case):
    """A lock that is not released in time is reported, and respected."""
    from lockfile import FileLock, LockTimeout, linklockfile
    from sbclassifier import safepickle
    labels = set()

    class Time:
        """A clock that is fast enough not to wait for long."""
        time = staticmethod(lambda: time.time() * 400)
        sleep = staticmethod(lambda s: time.sleep(s / 400))
    with scratch() as directory:
        path = os.path.join(directory, 'db')
        if case['exists']:
            safepickle.pickle_write(path, 'old')
        before = sorted(os.listdir(directory))
        locked, release = threading.Event(), threading.Event()

        def holder():
            lock = FileLock(path)
            lock.acquire(timeout=30)
            locked.set()
            release.wait(30)
            lock.release()

        thread = threading.Thread(target=holder)
        thread.start()
        try:
            ensure(locked.wait(40), 'the lock cannot be acquired')
            held = sorted(os.listdir(directory))
            for op in case['ops']:
                start = time.monotonic()
                with patched(linklockfile, time=Time):
                    if op == 'read':
                        expect_raises(LockTimeout, safepickle.pickle_read,
                                      path)
                    else:
                        expect_raises(LockTimeout, safepickle.pickle_write,
                                      path, 'new')
                ensure((time.monotonic() - start) * 400 >= 5,
                       'did not wait for the lock')
                same(sorted(os.listdir(directory)), held,
                     'files while locked')
                labels.add('timeout')
        finally:
            release.set()
            thread.join()
        same(sorted(os.listdir(directory)), before, 'files afterwards')
        if case['exists']:
            same(safepickle.pickle_read(path), 'old', 'value afterwards')
    return labels


def check_concurrent(case):
    """Processes that write and read one file see complete values only."""
    from sbclassifier import safepickle
    labels = set()
    with scratch() as directory:
        path = os.path.join(directory, 'db')
        safepickle.pickle_write(path, (0, 0, 'x' * case['size']))
        children = []
        for number, writes in enumerate(case['children']):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    import lockfile.linklockfile
                    # Ask more often than every two seconds.
                    class Time:
                        time = staticmethod(time.time)
                        sleep = staticmethod(lambda s: time.sleep(0.002))
                    lockfile.linklockfile.time = Time
                    for i in range(case['rounds']):
                        if writes:
                            safepickle.pickle_write(path, (
                                number, i, chr(97 + number)
                                * (case['size'] * (1 + i % 3))))
                        else:
                            n, j, text = safepickle.pickle_read(path)
                            if set(text) - {chr(97 + n), 'x'} or len(
                                    text) != case['size'] * (1 + j % 3):
                                os._exit(2)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            children.append(pid)
        for pid in children:
            _pid, status = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(status)
            ensure(code != 2, 'an incomplete value was read')
            same(code, 0, 'status of a process')
        n, i, text = safepickle.pickle_read(path)
        if any(case['children']):
            same(i, case['rounds'] - 1, 'the last value')
            labels.add('concurrent')
        same(os.listdir(directory), ['db'], 'files')
    return labels


class Monitor:
    """Who writes and reads the file at the moment.

    A value that is pickled before a file is opened, or unpickled after the
    lock was released, does not count.
    """
    lock = threading.Lock()
    active = []
    clashes = []
    pause = 0
    path = None
    using = set()       # threads between opening a file and the release
    opened = 0
    installed = False

    @classmethod
    def start(cls, path, pause):
        cls.active, cls.clashes, cls.using = [], [], set()
        cls.path, cls.pause = path, pause
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True

    @classmethod
    def hook(cls, event, args):
        if cls.path is None or event not in ('open', 'os.remove', 'os.rename'):
            return
        paths = [a for a in args[:2] if isinstance(a, str)]
        if not any(os.path.dirname(p) == os.path.dirname(cls.path)
                   for p in paths):
            return
        if event == 'os.remove':
            # The lock is released.
            cls.using.discard(threading.get_ident())
        elif event == 'open' and os.path.basename(paths[0]).startswith(
                socket.gethostname()):
            # The lock is about to be acquired.
            pass
        else:
            cls.using.add(threading.get_ident())
            cls.opened += 1
            if cls.path in paths:
                kind = ('read' if event == 'open' and args[1] in ('r', 'rb')
                        else 'write')
                with cls.lock:
                    if cls.active and 'write' in cls.active + [kind]:
                        cls.clashes.append((event, list(cls.active)))

    @classmethod
    def is_open(cls):
        for fd in os.listdir('/proc/self/fd'):
            try:
                name = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if cls.path and name.startswith(cls.path):
                return True
        return False

    @classmethod
    def use(cls, kind):
        if threading.get_ident() not in cls.using:
            # Has this thread, and no other, kept the file open?
            opened = cls.opened
            if cls.using or not cls.is_open() or opened != cls.opened:
                return
        with cls.lock:
            if cls.active and 'write' in cls.active + [kind]:
                cls.clashes.append((kind, list(cls.active)))
            cls.active.append(kind)
        time.sleep(cls.pause)
        with cls.lock:
            cls.active.remove(kind)


def monitored_read(number):
    Monitor.use('read')
    return number


class Monitored:
    def __init__(self, number):
        self.number = number

    def __reduce__(self):
        Monitor.use('write')
        return (monitored_read, (self.number,))


def check_threads(case):
    """Threads of one process exclude each other, too."""
    import lockfile.linklockfile
    from sbclassifier.safepickle import pickle_read, pickle_write
    labels = set()

    class Time:
        time = staticmethod(time.time)
        # Ask more often than every two seconds.
        sleep = staticmethod(lambda s: time.sleep(0.002))
    old = lockfile.linklockfile.time
    with scratch() as directory:
        path = os.path.join(directory, 'db')
        Monitor.start(None, 0)
        pickle_write(path, Monitored(-1))
        Monitor.start(path, case['pause'])
        errors, values = [], []

        def work(number, ops):
            try:
                for op in ops:
                    if op == 'write':
                        pickle_write(path, Monitored(number))
                    else:
                        values.append(pickle_read(path))
            except BaseException as e:
                errors.append(e)

        threads = [threading.Thread(target=work, args=x)
                   for x in enumerate(case['threads'])]
        try:
            lockfile.linklockfile.time = Time
            for t in threads:
                t.start()
            for t in threads:
                t.join(120)
        finally:
            lockfile.linklockfile.time = old
            Monitor.path = None
        ensure(not any(t.is_alive() for t in threads), 'a thread waits forever')
        ensure(not errors, 'errors: {}', errors)
        ensure(not Monitor.clashes, 'at the same time: {}', Monitor.clashes)
        ensure(set(values) <= set(range(-1, len(threads))), 'read {}', values)
        same(os.listdir(directory), ['db'], 'files')
    if sum('write' in ops for ops in case['threads']) > 1:
        labels.add('threads')
    return labels


def released_strategy():
    op = st.tuples(st.sampled_from(['write', 'bad', 'read', 'garbage',
                                    'store']),
                   st.one_of(st.integers(), st.text(max_size=5)))
    return st.fixed_dictionaries(dict(
        name=st.sampled_from(['db', 'my file', '\u00e9.pck']),
        ops=st.lists(op, min_size=1, max_size=8)))


GROUPS = [
    Group('released', released_strategy, check_released, 800, 20000,
          nontrivial=['failure'],
          rule='A history of successful and failing reads and writes; after '
               'each one the lock is free and no file is left over; '
               'non-trivial if an operation fails.'),
    Group('held', lambda: st.fixed_dictionaries(dict(
        operations=st.lists(st.sampled_from(['read', 'write', 'store',
                                             'open']), min_size=1,
                            max_size=4, unique=True),
        seconds=st.sampled_from([0.1, 0.3]))), check_held, 8, 160,
          fixed=lambda: [dict(operations=['read', 'write', 'store', 'open'],
                              seconds=0.3)],
          nontrivial=['held'],
          rule='Reads, writes, stores and opens started while another thread '
               'holds the lock; none may finish before it is released, all '
               'must finish then; always non-trivial.'),
    Group('timeout', lambda: st.fixed_dictionaries(dict(
        exists=st.booleans(), ops=st.lists(st.sampled_from(['read', 'write']),
                                           min_size=1, max_size=3))),
          check_timeout, 40, 1000, nontrivial=['timeout'],
          rule='Reads and writes with a fast clock while another thread '
               'holds the lock; always non-trivial.'),
    Group('concurrent', lambda: st.fixed_dictionaries(dict(
        children=st.lists(st.booleans(), min_size=2, max_size=4),
        rounds=st.integers(1, 8), size=st.sampled_from([1, 1000, 200000]))),
          check_concurrent, 16, 400, nontrivial=['concurrent'],
          rule='Several processes that write or read one file at the same '
               'time; non-trivial if there is a writer.'),
    Group('threads', lambda: st.fixed_dictionaries(dict(
        threads=st.lists(st.lists(st.sampled_from(['write', 'write', 'read']),
                                  min_size=1, max_size=4), min_size=2,
                         max_size=4),
        pause=st.sampled_from([0, 0.001, 0.01]))),
          check_threads, 80, 2000, nontrivial=['threads'],
          rule='Several threads that write or read one file at the same time; '
               'the values record who is pickling or unpickling; non-trivial '
               'if there are two writers.'),
]
ASSUMPTIONS = ['all processes use the lock']
