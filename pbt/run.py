"""Runs the check of one property; see bin/check."""
import hashlib
import importlib
import json
import logging
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import lib

SHARDS = 8
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def regressions(pid):
    directory = os.path.join(VERIF, 'regressions', pid)
    result = []
    if os.path.isdir(directory):
        for name in sorted(os.listdir(directory)):
            if name.endswith('.json'):
                with open(os.path.join(directory, name)) as f:
                    data = json.load(f)
                result.append((data['group'], lib.from_plain(data['case'])))
    return result


def known_findings(pid):
    """Returns {digest of (group, case): description}."""
    result = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                parts = line.split(None, 3)
                if (len(parts) == 4 and parts[0] == 'known:'
                        and parts[1] == 'property=' + pid):
                    result[parts[2]] = parts[3].strip()
    return result


def derive(*parts):
    text = '/'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


# How many times the number of cases that a group gives for the quick tier is
# run: a check then takes some 10 to 40 seconds on 8 cores.
QUICK = 4


def count_for(group, tier, shard):
    total = group.quick * QUICK if tier == 'quick' else group.thorough
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    total = int(total * scale)
    return total // SHARDS + (1 if shard < total % SHARDS else 0)


def load_module(pid):
    return importlib.import_module('props.' + pid.lower())


def worker(pid, tier, seed, shard, out, only=None):
    """Runs one shard of every group; writes a pickle to `out`."""
    module = load_module(pid)
    regression_cases = regressions(pid)
    results = []
    for group in module.GROUPS:
        if only and group.name not in only:
            continue
        fixed = [c for g, c in regression_cases if g == group.name]
        if group.fixed is not None:
            fixed.extend(group.fixed())
        fixed = [c for i, c in enumerate(fixed) if i % SHARDS == shard]
        t = time.monotonic()
        r = lib.run_group(group, count_for(group, tier, shard),
                          derive(seed, pid, group.name, shard), fixed)
        results.append(dict(
            group=group.name, evaluations=r.evaluations, labels=r.labels,
            nontrivial=sorted(r.nontrivial), samples=r.samples,
            failures=sorted(r.failures)[:3], seconds=time.monotonic() - t))
    with open(out, 'wb') as f:
        pickle.dump(results, f)


def enter_scratch(name):
    lib.SCRATCH = tempfile.mkdtemp(prefix='verif-%s-' % name)
    os.chdir(lib.SCRATCH)
    tempfile.tempdir = lib.SCRATCH
    return lib.SCRATCH


def check_import():
    import sbclassifier
    where = os.path.dirname(os.path.abspath(sbclassifier.__file__))
    if where != os.path.join(os.path.abspath(lib.REPO), 'sbclassifier'):
        raise lib.HarnessError('imported sbclassifier from ' + where)


def replay_file(pid, group, text, message, extra):
    directory = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(directory, exist_ok=True)
    digest = hashlib.sha1((group + text).encode()).hexdigest()[:12]
    path = os.path.join(directory, '%s-%s.json' % (pid, digest))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, group=group, case=json.loads(text),
                       message=lib.short(message, 5000), run_with='bin/check --replay ' + path,
                       **extra), f, indent=1)
        f.write('\n')
    return path


def main_check(pid, tier, seed, only=None):
    start = time.monotonic()
    top = enter_scratch(pid)
    status = 0
    try:
        try:
            check_import()
            module = load_module(pid)
        except lib.HarnessError:
            raise
        except Exception as e:
            # The code under test cannot even be imported.
            traceback.print_exc()
            return 2
        import hypothesis
        children = []
        for shard in range(SHARDS):
            out = os.path.join(top, 'shard%d' % shard)
            sys.stdout.flush()
            sys.stderr.flush()
            child = os.fork()
            if child == 0:
                code = 3
                try:
                    directory = os.path.join(top, 'work%d' % shard)
                    os.mkdir(directory)
                    os.chdir(directory)
                    lib.SCRATCH = directory
                    tempfile.tempdir = directory
                    worker(pid, tier, seed, shard, out, only)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            children.append((shard, child, out))
        merged, broken = {}, []
        for shard, child, out in children:
            _, wait_status = os.waitpid(child, 0)
            if wait_status != 0 or not os.path.exists(out):
                broken.append((shard, wait_status))
                continue
            with open(out, 'rb') as f:
                for r in pickle.load(f):
                    m = merged.setdefault(r['group'], dict(
                        evaluations=0, labels={}, nontrivial=set(),
                        samples=[], failures=[], seconds=0.0))
                    m['evaluations'] += r['evaluations']
                    for k, v in r['labels'].items():
                        m['labels'][k] = m['labels'].get(k, 0) + v
                    m['nontrivial'].update(r['nontrivial'])
                    m['samples'].extend(r['samples'])
                    m['failures'].extend((n, t, msg, shard)
                                         for n, t, msg in r['failures'])
                    m['seconds'] = max(m['seconds'], r['seconds'])
        known = known_findings(pid)
        violations = []
        for group in module.GROUPS:
            m = merged.get(group.name)
            for n, text, message, shard in sorted((m or {}).get('failures',
                                                                ())):
                digest = hashlib.sha1((group.name + text).encode()
                                      ).hexdigest()[:12]
                if digest in known:
                    print('KNOWN-FINDING: property=%s %s'
                          % (pid, known[digest]))
                    continue
                path = replay_file(pid, group.name, text, message, dict(
                    seed=seed, tier=tier, shard=shard))
                violations.append((group.name, path, message))
                break
        # Known findings that are recorded as fixed inputs of a group.
        for line in getattr(module, 'known', lambda: [])():
            print('KNOWN-FINDING: property=%s %s' % (pid, line))
        write_evidence(pid, tier, seed, module, merged, violations,
                       broken, time.monotonic() - start)
        for name, path, message in violations:
            print('group %s: %s' % (name, message))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        total = sum(m['evaluations'] for m in merged.values())
        for name, m in merged.items():
            print('  %-28s %7d cases %7d non-trivial %6.1f s  %s' % (
                name, m['evaluations'], len(m['nontrivial']), m['seconds'],
                ' '.join('%s=%d' % kv for kv in sorted(m['labels'].items()))))
        print('%s %s seed=%d: %d cases, %.1f s, %d violation(s)' % (
            pid, tier, seed, total, time.monotonic() - start,
            len(violations)))
        if violations:
            status = 1
        elif broken:
            print('shards without an answer: %r' % broken, file=sys.stderr)
            status = 2
    finally:
        os.chdir('/')
        shutil.rmtree(top, ignore_errors=True)
    return status


def write_evidence(pid, tier, seed, module, merged, violations, broken,
                   wall):
    groups = {}
    samples = []
    rules = []
    for group in module.GROUPS:
        m = merged.get(group.name)
        if m is None:
            continue
        groups[group.name] = dict(
            evaluations=m['evaluations'],
            distinct_nontrivial=len(m['nontrivial']),
            classes=dict(sorted(m['labels'].items())),
            rule=group.rule)
        rules.append('%s: %s' % (group.name, group.rule))
        for s in sorted(m['samples'], key=lambda s: -len(json.dumps(s)))[:2]:
            samples.append(dict(group=group.name, case=s))
    evidence = dict(
        property=pid, tier=tier, seed=seed,
        level=getattr(module, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=sum(g['evaluations'] for g in groups.values()),
            distinct_nontrivial=sum(g['distinct_nontrivial']
                                    for g in groups.values()),
            rule=' | '.join(rules), samples=samples, groups=groups,
            shards=SHARDS, shards_without_answer=len(broken)),
        assumptions=list(getattr(module, 'ASSUMPTIONS', ())),
        wall_s=round(wall, 3), violations=len(violations))
    directory = os.path.join(VERIF, 'evidence')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)


def main_replay(path):
    with open(path) as f:
        data = json.load(f)
    pid = data.get('property') or os.path.basename(os.path.dirname(path))
    top = enter_scratch(pid)
    try:
        check_import()
        module = load_module(pid)
        group, = [g for g in module.GROUPS if g.name == data['group']]
        _, message = lib.run_case(group, lib.from_plain(data['case']))
        if message is None and 'shard' in data:
            # Perhaps it depends on the cases that were run before it.
            print('the case alone passes; running its shard again')
            r = lib.run_group(group, count_for(group, data['tier'],
                                               data['shard']),
                              derive(data['seed'], pid, group.name,
                                     data['shard']), [])
            if r.failures:
                message = r.failures[0][2]
        if message is None:
            print('holds')
            return 0
        print('group %s: %s' % (group.name, message))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    finally:
        os.chdir('/')
        shutil.rmtree(top, ignore_errors=True)


def main(argv):
    logging.disable(logging.CRITICAL)
    if argv[:1] == ['--replay']:
        return main_replay(os.path.abspath(argv[1]))
    if argv[:1] == ['--smoke']:
        check_import()
        import hypothesis
        names = sorted(n[:-3] for n in os.listdir(os.path.join(HERE, 'props'))
                       if n.startswith('c') and n.endswith('.py'))
        for name in names:
            importlib.import_module('props.' + name)
        print('hypothesis %s, %d property modules' % (hypothesis.__version__,
                                                      len(names)))
        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return main_check(pid, tier, seed, only=argv[2:] or None)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except lib.HarnessError as e:
        print('harness error: %s' % e, file=sys.stderr)
        code = 2
    sys.exit(code)
