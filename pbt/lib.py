"""Shared parts of the property checks: cases, oracles, sharded execution.

A property module defines GROUPS, a list of Group objects. A group has a
Hypothesis strategy for *cases* (plain data that can be written as JSON) and a
function that runs the code under test on one case and compares it with an
oracle. The function raises Violation when the oracle disagrees, and otherwise
returns the labels of the case: a set of strings. A case is non-trivial if it
has at least one label that is in `Group.nontrivial`.
"""
import base64
import contextlib
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if SITE not in sys.path:
    sys.path.append(SITE)

CASE_SECONDS = 90


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class HarnessError(Exception):
    """The check itself cannot give an answer."""


class CaseTimeout(BaseException):
    pass


def ensure(condition, message, *args):
    if not condition:
        raise Violation(message.format(*[short(a) for a in args]))


def same(actual, expected, what):
    if actual != expected:
        raise Violation('{}: got {}, expected {}'.format(
            what, short(actual), short(expected)))


def close(actual, expected, what, tol=1e-9):
    if not (abs(actual - expected) <= tol):
        raise Violation('{}: got {!r}, expected {!r}'.format(
            what, actual, expected))


def short(x, n=700):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d more)' % (len(s) - n)


def diff_sets(actual, expected, what):
    actual, expected = set(actual), set(expected)
    if actual != expected:
        raise Violation('{}: unexpected {}; missing {}'.format(
            what, short(sorted(actual - expected, key=repr)),
            short(sorted(expected - actual, key=repr))))


def expect_raises(exceptions, f, *args, **kw):
    try:
        result = f(*args, **kw)
    except exceptions as e:
        return e
    raise Violation('{} returned {} instead of raising {}'.format(
        getattr(f, '__name__', f), short(result), exceptions))


# -- cases as JSON ----------------------------------------------------------

def to_plain(x):
    if isinstance(x, (bytes, bytearray)):
        return {'$b': bytes(x).decode('latin-1')}
    if isinstance(x, (list, tuple)):
        return [to_plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return [to_plain(y) for y in sorted(x)]
    if isinstance(x, dict):
        return {k: to_plain(v) for k, v in x.items()}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    raise HarnessError('not plain data: %r' % (x,))


def from_plain(x):
    if isinstance(x, list):
        return [from_plain(y) for y in x]
    if isinstance(x, dict):
        if set(x) == {'$b'}:
            return x['$b'].encode('latin-1')
        return {k: from_plain(v) for k, v in x.items()}
    return x


def dumps(case):
    return json.dumps(to_plain(case), sort_keys=True)


def loads(text):
    return from_plain(json.loads(text))


class Group:

    def __init__(self, name, strategy, check, quick, thorough=None,
                 nontrivial=None, rule='', fixed=None, doc=''):
        """`strategy` is a function without arguments, so that nothing is
        built for the groups that are not run. `quick` and `thorough` are the
        total number of cases over all shards. `fixed` is a function that
        returns a list of cases to run besides the generated ones (each case
        is run by one shard).
        """
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.nontrivial = nontrivial
        self.rule = rule
        self.fixed = fixed
        self.doc = doc


# -- scratch directories ----------------------------------------------------

SCRATCH = None      # the scratch directory of this process


class scratch:
    """A new directory, removed at the end of the with statement.

    If `elsewhere` is true then it is, where possible, in another file system
    than temporary files are.
    """

    def __init__(self, elsewhere=False):
        self.where = SCRATCH
        other = '/dev/shm'
        if (elsewhere and os.access(other, os.W_OK | os.X_OK)
                and os.stat(other).st_dev != os.stat(SCRATCH or '/tmp').st_dev):
            self.where = other

    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=self.where, prefix='verif-')
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


class patched:
    """Sets attributes of an object during the with statement."""

    def __init__(self, obj, **attributes):
        self.obj, self.attributes = obj, attributes

    def __enter__(self):
        self.old = {}
        for k, v in self.attributes.items():
            self.old[k] = getattr(self.obj, k)
            setattr(self.obj, k, v)
        return self.obj

    def __exit__(self, *exc):
        for k, v in self.old.items():
            setattr(self.obj, k, v)


@contextlib.contextmanager
def stand_in(module, **attributes):
    """Replaces attributes of a module, also where the code under test has
    imported them by name."""
    old = {k: getattr(module, k) for k in attributes}
    with contextlib.ExitStack() as stack:
        stack.enter_context(patched(module, **attributes))
        for name, user in list(sys.modules.items()):
            if name.split('.')[0] == 'sbclassifier':
                for k, v in list(vars(user).items()):
                    for attribute, original in old.items():
                        if v is original:
                            stack.enter_context(patched(
                                user, **{k: attributes[attribute]}))
        yield


# -- running one case -------------------------------------------------------

def _on_alarm(signum, frame):
    raise CaseTimeout()


def is_environment_error(e):
    if isinstance(e, MemoryError):
        return True
    if isinstance(e, OSError) and e.errno in (28, 24, 23, 12, 11):
        return True     # ENOSPC, EMFILE, ENFILE, ENOMEM, EAGAIN
    return False


def run_case(group, case, case_seconds=CASE_SECONDS):
    """Returns (labels, None) or (None, message of the violation)."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(case_seconds)
    try:
        labels = group.check(case)
        return set(labels or ()), None
    except Violation as e:
        return None, str(e)
    except HarnessError:
        raise
    except CaseTimeout:
        return None, 'did not finish within %d seconds' % case_seconds
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        tb = traceback.format_exc()
        if is_environment_error(e) and '/sbclassifier/' not in tb:
            raise HarnessError(tb)
        lines = tb.strip().split('\n')
        return None, 'raised %s: %s | %s' % (
            type(e).__name__, short(str(e), 300),
            short(' / '.join(l.strip() for l in lines[-9:-1]), 900))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Stop(BaseException):
    pass


class Recorder:
    """Runs the cases of one group in one shard."""

    MAX_AFTER_FAILURE = 1500
    MAX_SECONDS_AFTER_FAILURE = 30

    def __init__(self, group):
        self.group = group
        self.evaluations = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self.failures = []      # (size, json, message)
        self.first_failure = None
        self.after = 0

    def one(self, case):
        text = dumps(case)
        if self.first_failure is not None:
            self.after += 1
            if (self.after > self.MAX_AFTER_FAILURE or time.monotonic()
                    - self.first_failure > self.MAX_SECONDS_AFTER_FAILURE):
                raise Stop()
        limit = CASE_SECONDS if self.first_failure is None else 20
        labels, message = run_case(self.group, loads(text), limit)
        if message is not None:
            if self.first_failure is None:
                self.first_failure = time.monotonic()
            self.failures.append((len(text), text, message))
            if len(self.failures) > 50:
                self.failures.sort()
                del self.failures[10:]
            raise Violation(message)
        if self.first_failure is None:
            self.evaluations += 1
            for label in labels:
                self.labels[label] = self.labels.get(label, 0) + 1
            if self.is_nontrivial(labels):
                digest = hashlib.sha1(text.encode()).digest()[:8]
                if digest not in self.nontrivial:
                    self.nontrivial.add(digest)
                    if len(self.samples) < 3 and len(text) < 3000:
                        self.samples.append(json.loads(text))

    def is_nontrivial(self, labels):
        if self.group.nontrivial is None:
            return bool(labels)
        return bool(labels & set(self.group.nontrivial))


def run_group(group, count, seed, fixed_cases, recorder=None):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hypothesis_seed
    from hypothesis.errors import HypothesisException
    recorder = recorder or Recorder(group)
    for case in fixed_cases:
        try:
            recorder.one(case)
        except (Violation, Stop):
            return recorder
    if count <= 0 or group.strategy is None:
        return recorder

    @hypothesis_seed(seed)
    @settings(max_examples=count, database=None, deadline=None,
              suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink],
              report_multiple_bugs=False, print_blob=False,
              stateful_step_count=1)
    @given(group.strategy())
    def test(case):
        recorder.one(case)

    try:
        test()
    except (Violation, Stop):
        pass
    except (HypothesisException, BaseExceptionGroup, Exception) as e:
        if not recorder.failures:
            raise HarnessError('group %s: %s' % (group.name,
                                                 traceback.format_exc()))
    return recorder
