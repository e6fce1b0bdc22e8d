"""C10: a store that fails or is killed keeps the previous database."""
import errno
import os
import resource
import signal
import sys
import tempfile
import traceback

import stores
import strat
from bayes import Model, check_state
from lib import Group, HarnessError, Violation, ensure, expect_raises, same
from lib import patched, scratch
from hypothesis import strategies as st

RAISED, STORED, AGAIN = 10, 11, 12


def opener(kind):
    from sbclassifier.classifiers import CDBClassifier, PickleClassifier
    return CDBClassifier if kind == 'cdb' else PickleClassifier


class Injected(Exception):
    pass


class EventFault:
    """Fails (or ends the process) at the n-th operation on the directory."""

    def __init__(self, directory, n, mode):
        self.directory, self.n, self.mode = directory, n, mode
        self.events, self.active = [], False
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.active or not (event == 'open'
                                   or event.startswith('os.')):
            return
        if not any(isinstance(a, str) and a.startswith(self.directory)
                   for a in args):
            return
        self.events.append(event)
        if len(self.events) == self.n:
            if self.mode == 'kill':
                os._exit(9)
            if self.mode == 'interrupt':
                raise KeyboardInterrupt
            raise OSError(errno.EIO, 'injected')

    def __enter__(self):
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False


class LineFault:
    """Fails (or ends the process) at the n-th line of the code under test."""

    def __init__(self, directory, n, mode):
        self.n, self.mode, self.events = n, mode, []

    def trace(self, frame, event, arg):
        if not any(name in frame.f_code.co_filename
                   for name in ('sbclassifier', 'shutil')):
            return None
        if event == 'line':
            self.events.append('%s:%d' % (os.path.basename(
                frame.f_code.co_filename), frame.f_lineno))
            if len(self.events) == self.n:
                if self.mode == 'kill':
                    os._exit(9)
                sys.settrace(None)
                if self.mode == 'interrupt':
                    raise KeyboardInterrupt
                raise Injected()
        return self.trace

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)


class SizeFault:
    """Files cannot grow beyond n bytes, as on a full disk."""

    def __init__(self, directory, n, mode):
        self.n, self.mode, self.events = n, mode, []

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if self.mode == 'kill'
                      else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))
        return self

    def __exit__(self, *exc):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


FAULTS = {'event': EventFault, 'line': LineFault, 'size': SizeFault}


def in_child(f):
    """Runs f in a child process; returns its exit status, or minus the number
    of the signal that ended it, and what it wrote."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            signal.alarm(60)
            result = f()
            code, text = result if isinstance(result, tuple) else (result, '')
            os.write(w, text.encode()[:1000000])
        except BaseException:
            os.write(w, traceback.format_exc().encode()[-4000:])
        finally:
            os._exit(code)
    os.close(w)
    text = b''
    while True:
        data = os.read(r, 65536)
        if not data:
            break
        text += data
    os.close(r)
    _pid, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), text.decode()


def train(c, model, messages):
    for tokens, is_spam in messages:
        c.learn(list(tokens), is_spam)
        model.learn(tokens, is_spam)


def clear_locks(directory, before):
    """Removes what a killed process cannot remove itself."""
    for name in os.listdir(directory):
        if name not in before and name != 'db':
            os.remove(os.path.join(directory, name))


def content_is(kind, path, model, vocabulary):
    """Whether the database has exactly this content."""
    try:
        check_state(opener(kind)(path), model, vocabulary, 'database')
        return True
    except Violation:
        return False


def check(case):
    kind = case['kind']
    labels = set()
    vocabulary = case['vocabulary']
    size = case.get('size', 1)
    if size > 1:
        # The database is larger than any buffer.
        vocabulary = strat.enlarge(vocabulary, size)
        case = dict(case)
        for name in ('old', 'new'):
            if case[name] is not None:
                case[name] = [(strat.enlarge(tokens, size), is_spam)
                              for tokens, is_spam in case[name]]
    with scratch(elsewhere=case['elsewhere']) as directory, \
            scratch() as temporary, \
            patched(tempfile, tempdir=temporary):
        directory = os.path.join(directory, 'data')
        os.mkdir(directory)
        path = os.path.join(directory, 'db')
        old, new = Model(), Model()
        if case['old'] is not None:
            c = opener(kind)(path)
            train(c, old, case['old'])
            c.store()
            new = old.copy()
        old_bytes = read(path)
        names = sorted(os.listdir(directory))

        def store(fault_kind, n, mode, again=False):
            def run():
                c = opener(kind)(path)
                train(c, Model(), case['new'])
                code = STORED
                fault = FAULTS[fault_kind]((directory, temporary), n, mode)
                try:
                    with fault:
                        c.store()
                except (Injected, OSError, KeyboardInterrupt):
                    code = RAISED
                except BaseException:
                    # It may be reported as another error.
                    code = RAISED
                if again and code == RAISED:
                    listing = sorted(os.listdir(directory))
                    if listing != names or os.listdir(temporary):
                        return 1, 'left behind %s' % (
                            listing + os.listdir(temporary))
                    if read(path) != old_bytes:
                        return 1, 'changed the previous database'
                    c.store()
                    code = AGAIN
                return code, ' '.join(fault.events)
            return in_child(run)

        def restore():
            for top in (directory, temporary):
                for name in os.listdir(top):
                    os.remove(os.path.join(top, name))
            if old_bytes is not None:
                with open(path, 'wb') as f:
                    f.write(old_bytes)

        model = new.copy()
        train_model(model, case['new'])
        new = model
        # How many operations and lines there are without faults.
        totals = {}
        for fault_kind in ('event', 'line') if size == 1 else ('event',):
            code, text = store(fault_kind, 0, 'none')
            ensure(code == STORED, 'store fails ({}): {}', code, text)
            totals[fault_kind] = text.split()
            ensure(content_is(kind, path, new, vocabulary),
                   'the stored database is not as expected')
            same(sorted(os.listdir(directory)) + os.listdir(temporary),
                 ['db'], 'files once stored')
            new_size = os.path.getsize(path)
            restore()
        plan = []
        for mode in ('raise', 'kill', 'interrupt'):
            for n in range(1, len(totals['event']) + 1):
                plan.append(('event', n, mode))
        totals.setdefault('line', [])
        lines = len(totals['line'])
        # The first and last time that each line is executed.
        edges = {line: n for n, line in enumerate(totals['line'], 1)}
        edges = set(edges.values()) | {
            totals['line'].index(line) + 1 for line in edges}
        for mode in ('kill', 'interrupt'):
            chosen = (range(1, lines + 1) if lines <= case['lines'] else
                      sorted({1 + (case['offset'] + i * lines
                                   // case['lines']) % lines
                              for i in range(case['lines'])}))
            for n in sorted(edges.union(chosen)):
                plan.append(('line', n, mode))
        for mode in ('raise', 'kill'):
            for n in sorted({0, 1, new_size // 2, new_size - 1,
                             case['offset'] % new_size, new_size} | set(
                                 range(8192, new_size, new_size // 3))):
                plan.append(('size', n, mode))
        for fault_kind, n, mode in plan:
            # A failing write, or a failing replacement, leaves nothing
            # behind, and the next attempt can succeed.
            clean = mode == 'raise' and (
                fault_kind == 'size' or fault_kind == 'event'
                and totals['event'][n - 1] in ('os.rename', 'os.replace'))
            code, text = store(fault_kind, n, mode, again=clean)
            what = '%s fault %d of %s (%s), with status %d %s' % (
                fault_kind, n, totals.get(fault_kind, [new_size])[n - 1:n],
                mode, code, text if code < 10 else '')
            if mode == 'kill':
                ensure(code in (9, STORED, RAISED, -signal.SIGXFSZ),
                       'unexpected end of ' + what)
                clear_locks(directory, names)
            else:
                ensure(code in (STORED, RAISED, AGAIN),
                       'unexpected end of ' + what)
                if fault_kind != 'size':
                    clear_locks(directory, names)
            if code in (STORED, AGAIN):
                ensure(content_is(kind, path, new, vocabulary),
                       'the database is not what was stored, after ' + what)
            else:
                labels.add('failed')
                is_old = (read(path) == old_bytes if old_bytes is None
                          else content_is(kind, path, old, vocabulary))
                ensure(is_old or content_is(kind, path, new, vocabulary),
                       'the database is neither the old nor the new one, '
                       'after ' + what)
            labels.add('%s %s' % (fault_kind, mode))
            restore()
        if new_size > 65536:
            labels.add('large')
    return labels


def train_model(model, messages):
    for tokens, is_spam in messages:
        model.learn(tokens, is_spam)


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


class Unpicklable:

    def __reduce__(self):
        raise Injected('cannot be pickled')


def check_value(case):
    """A value that cannot be written leaves the previous one."""
    from sbclassifier.classifiers import PickleClassifier
    from sbclassifier.safepickle import pickle_read, pickle_write
    labels = set()
    with scratch(elsewhere=case['elsewhere']) as directory, \
            scratch() as temporary, \
            patched(tempfile, tempdir=temporary):
        path = os.path.join(directory, case['name'])
        if case['old'] is not None:
            pickle_write(path, case['old'])
            same(pickle_read(path), case['old'], 'value read back')
        before = {n: read(os.path.join(directory, n))
                  for n in os.listdir(directory)}
        bad = list(case['new'])
        bad.insert(case['at'] % (len(bad) + 1), Unpicklable())
        expect_raises(Injected, pickle_write, path, bad)
        same({n: read(os.path.join(directory, n))
              for n in os.listdir(directory)}, before,
             'files after a value that cannot be pickled')
        same(os.listdir(temporary), [], 'temporary files')
        pickle_write(path, case['new'])
        same(pickle_read(path), case['new'], 'value written afterwards')
        same(os.listdir(directory), [case['name']], 'files')
        # Reading something that is not a pickle fails, and changes nothing.
        data = read(path)
        damaged = data[:case['cut'] % len(data)]
        with open(path, 'wb') as f:
            f.write(damaged)
        try:
            pickle_read(path)
        except Exception:
            pass
        else:
            raise Violation('a truncated pickle was read')
        try:
            PickleClassifier(path)
        except Exception:
            pass
        else:
            raise Violation('a truncated database was opened')
        same(read(path), damaged, 'file that could not be read')
        same(os.listdir(directory), [case['name']], 'files')
        expect_raises(FileNotFoundError, pickle_read,
                      os.path.join(directory, 'missing'))
        same(os.listdir(directory), [case['name']], 'files')
        labels.add('replaced' if case['old'] is not None else 'new')
    return labels


def check_damaged(case):
    """A database that is damaged is not taken for another one; and storing
    changes nothing but the content of the file."""
    labels = set()
    with scratch(elsewhere=case['elsewhere']) as directory:
        path = os.path.join(directory, 'db')
        model = Model()
        c = opener(case['kind'])(path)
        train(c, model, case['train'])
        c.store()
        data = read(path)
        with open(os.path.join(directory, 'file'), 'wb'):
            pass
        if case['kind'] == 'cdb':
            same(oct(os.stat(path).st_mode),
                 oct(os.stat(os.path.join(directory, 'file')).st_mode),
                 'permissions of a new database')
        os.remove(os.path.join(directory, 'file'))
        size = len(data)
        for cut in sorted({0, 1, size // 2, size - 1, case['cut'] % size}):
            damaged = data[:cut]
            with open(path, 'wb') as f:
                f.write(damaged)
            try:
                d = opener(case['kind'])(path)
            except Exception:
                labels.add('refused')
            else:
                check_state(d, model, case['vocabulary'], 'database of which '
                            '%d of %d bytes are left' % (cut, size))
                labels.add('whole')
            same(read(path), damaged, 'file that could not be read')
            same(os.listdir(directory), ['db'], 'files')
        if case['kind'] == 'cdb':
            # Whoever may read the database can still read it.
            os.chmod(path, case['mode'])
            name = path
            if case['link']:
                name = os.path.join(directory, 'link')
                os.symlink('db', name)
            c.filename = name
            c.store()
            same(read(path), data, 'stored database')
            same(oct(os.stat(path).st_mode & 0o777), oct(case['mode']),
                 'permissions')
            ensure(os.path.islink(name) == case['link'], 'the link is gone')
            check_state(opener('cdb')(name), model, case['vocabulary'],
                        'database stored again')
    return labels


def damaged_strategy():
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 6))
        message = st.tuples(st.lists(st.sampled_from(vocab), min_size=1,
                                     max_size=6), st.booleans())
        return dict(
            kind=draw(st.sampled_from(['pickle', 'cdb'])), vocabulary=vocab,
            train=draw(st.lists(message, min_size=1, max_size=4)),
            elsewhere=draw(st.booleans()), cut=draw(st.integers(0, 10000)),
            mode=draw(st.sampled_from([0o600, 0o640, 0o644, 0o664])),
            link=draw(st.booleans()))
    return cases()


def strategy(sizes=(1,)):
    @st.composite
    def cases(draw):
        vocab = draw(strat.vocabularies(2, 6))
        message = st.tuples(st.lists(st.sampled_from(vocab), max_size=6),
                            st.booleans())
        return dict(
            kind=draw(st.sampled_from(['pickle', 'cdb'])), vocabulary=vocab,
            old=draw(st.one_of(st.none(), st.lists(message, min_size=1,
                                                   max_size=4))),
            new=draw(st.lists(message, min_size=1, max_size=4)),
            size=draw(st.sampled_from(sizes)),
            elsewhere=draw(st.booleans()), lines=30,
            offset=draw(st.integers(0, 10000)))
    return cases()


def value_strategy():
    value = st.lists(st.one_of(st.integers(), st.text(max_size=4),
                               st.binary(max_size=4)), max_size=5)
    return st.fixed_dictionaries(dict(
        name=st.sampled_from(['x', 'my file.pck', '\u2603']),
        old=st.one_of(st.none(), value), new=value, at=st.integers(0, 9),
        cut=st.integers(0, 1000), elsewhere=st.booleans()))


GROUPS = [
    Group('store', strategy, check, 24, 600, nontrivial=['failed'],
          rule='An old and a new training of a pickle or constant database; '
               'the store of the new one is repeated with a fault at every '
               'file operation (error, interrupt, end of the process), at '
               'every line (the first and last time, and up to 30 more '
               'times) and at several sizes of a full disk; '
               'each time the database must be the old or the new one; '
               'non-trivial if a store fails.'),
    Group('large', lambda: strategy((1000, 3000)), check, 4, 150,
          nontrivial=['large'],
          rule='The same for databases of thousands of tokens, with faults '
               'at file operations and at sizes of a full disk; non-trivial '
               'if the database has more than 64 kilobytes.'),
    Group('value', value_strategy, check_value, 600, 10000,
          nontrivial=['replaced'],
          rule='Values written to a pickle file, with something inside that '
               'cannot be pickled, and truncated files; non-trivial if '
               'there was a value before.'),
    Group('damaged', damaged_strategy, check_damaged, 300, 10000,
          nontrivial=['refused'],
          rule='A stored pickle or constant database that is truncated (to '
               'nothing, too) is refused, or has the stored content; a '
               'constant database keeps its permissions, and links to it; '
               'non-trivial if a truncated database is refused.'),
]
ASSUMPTIONS = ['a process that is killed leaves its lock and temporary files, '
               'which are removed before the database is opened again',
               'the file system replaces a file atomically']
LEVEL = 'fault_enumeration'
