"""
Runs the check of one property: all its facets, in parallel workers.

Exit status: 0 held on everything explored; 1 violated (a VIOLATION line was
printed); 2 the check itself failed.
"""
import argparse, concurrent.futures as cf, importlib, json, multiprocessing
import os, signal, sys, time, traceback, warnings, zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, os.path.join(HERE, 'vendor'), HERE]
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from harness import core
from harness.core import Violation, HarnessError, Ctx, case_json, case_hash

CASE_LIMIT = 90     # seconds; cases normally take well under one.
SHRINK_BUDGET = 40  # seconds of shrinking after the first failure.
CHUNK = 60          # cases per task, at least.
QUICK_SCALE = 3     # of the numbers that facets give.
BUDGET = dict(quick=300, thorough=3600)  # seconds, then no more cases.


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


def in_repo(err):
    """Did the error pass through the code under test?"""
    top = os.path.join(os.path.realpath(REPO), 'flowtracks') + os.sep
    return any(os.path.realpath(fr.filename).startswith(top)
        for fr in traceback.extract_tb(err.__traceback__))


def run_case(facet, case):
    """
    Returns the context, after running the case. Raises Violation if the
    property is violated, anything else is a failure of the harness.
    """
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            facet.func(case, ctx)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation('no result in %d s, cases like this take less than '
            'one' % CASE_LIMIT)
    except (MemoryError, HarnessError):
        raise
    except OSError as e:
        if e.errno in (12, 23, 24, 28):  # memory, files, disk space.
            raise
        if not (ctx.touched or in_repo(e)):
            raise
        raise Violation('result can not be processed: %s'
            % traceback.format_exc(limit=-6))
    except Exception as e:
        # The same processing works on the results of correct code, so once
        # the code under test has run this is about its results. And so is
        # what it raises while a case is being arranged.
        if not (ctx.touched or in_repo(e)):
            raise
        raise Violation('result can not be processed: %s'
            % traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
        ctx.close()
    return ctx


def get_facet(pid, name):
    for f in core.FACETS[pid]:
        if f.name == name:
            return f
    raise HarnessError('no facet %s in %s' % (name, pid))


def run_task(pid, name, shard, num, seed, deadline):
    """One worker's share: num cases of a facet."""
    import hypothesis as hyp
    from hypothesis import HealthCheck, Phase

    # Where cases themselves take long to generate.
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 2 * SHRINK_BUDGET
    facet = get_facet(pid, name)
    st = dict(name=name, shard=shard, evaluations=0, hashes=set(), classes={},
        samples=[], known={}, failure=None, error=None)
    fail_state = dict(best=None, msg=None, since=None)

    def body(case):
        text = case_json(case)
        if fail_state['best'] is not None and \
                time.monotonic() - fail_state['since'] > SHRINK_BUDGET:
            # Out of time for shrinking: the best so far it is.
            raise KeyboardInterrupt
        if fail_state['best'] is None:
            if time.monotonic() > deadline: # a slow machine: what was done.
                return
            st['evaluations'] += 1
        try:
            ctx = run_case(facet, json.loads(text))
        except Violation as e:
            if fail_state['since'] is None:
                fail_state['since'] = time.monotonic()
            if 'no result in' in str(e):
                fail_state['since'] = -1e9  # no shrinking.
            fail_state['best'], fail_state['msg'] = text, str(e)
            raise
        if fail_state['best'] is None:
            for c in ctx.classes:
                st['classes'][c] = st['classes'].get(c, 0) + 1
            for k, what in ctx.known_seen:
                st['known'].setdefault(k, what)
            if ctx.is_nontrivial:
                h = case_hash(text)
                if h not in st['hashes']:
                    st['hashes'].add(h)
                    if len(st['samples']) < 2 and len(text) < 6000:
                        st['samples'].append(text)

    body.__name__ = 'facet_' + name.replace('-', '_')
    test = hyp.given(facet.strategy)(body)
    test = hyp.settings(max_examples=num, database=None, deadline=None,
        derandomize=False, report_multiple_bugs=False, print_blob=False,
        suppress_health_check=[HealthCheck.too_slow,
            HealthCheck.data_too_large, HealthCheck.large_base_example],
        phases=[Phase.generate, Phase.shrink])(test)
    test = hyp.seed(zlib.crc32(('%d/%s/%s/%d' % (seed, pid, name, shard))
        .encode()))(test)
    try:
        with open(os.devnull, 'w') as null:
            test()
    except Violation:
        pass
    except BaseException as e:
        if fail_state['best'] is None:
            st['error'] = ''.join(traceback.format_exception(e))
    if fail_state['best'] is not None:
        st['failure'] = (fail_state['best'], fail_state['msg'])
    return st


def read_findings():
    """
    KNOWN_FINDINGS.txt: lines "finding: property=<id> key=<key> <text>". Lines
    starting with "fixed:" are a record only.
    """
    ret = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            if line.startswith('finding:'):
                _, prop, key, text = line.strip().split(None, 3)
                ret[(prop.split('=')[1], key.split('=')[1])] = text
    return ret


def write_replay(pid, facet_name, text, msg):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, facet_name))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, facet=facet_name, case=json.loads(text),
            message=msg), f, indent=1)
        f.write('\n')
    return path


def selfcheck():
    """Everything that a check needs is there."""
    import hypothesis, numpy, scipy.io, tables, flowtracks
    for mod in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if mod.startswith(('c', 'large')) and mod.endswith('.py'):
            importlib.import_module('checks.' + mod[:-3])
    print('%d properties, %d facets' % (len(core.FACETS),
        sum(map(len, core.FACETS.values()))))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', choices=['quick', 'thorough'],
        default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--workers', type=int, default=0)
    args = ap.parse_args()
    pid, tier = args.property, args.tier
    if pid == 'selfcheck':
        return selfcheck()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start = time.monotonic()

    import flowtracks
    where = os.path.realpath(flowtracks.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print('ERROR: flowtracks comes from', where)
        return 2
    for mod in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if mod.startswith((pid.lower() + '_', 'large')) and \
                mod.endswith('.py'):
            importlib.import_module('checks.' + mod[:-3])
    if pid not in core.FACETS:
        print('ERROR: no check for', pid)
        return 2
    facets = core.FACETS[pid]
    if args.facet:
        facets = [f for f in facets if f.name == args.facet]

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        try:
            ctx = run_case(get_facet(pid, rep['facet']), rep['case'])
        except Violation as e:
            print(e)
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            return 1
        print('the case passes')
        return 0

    deadline = start + BUDGET[tier]
    tasks = []
    for f in facets:
        total = max(1, int((f.quick if tier == 'quick' else f.thorough)
            * (QUICK_SCALE if tier == 'quick' else 1) * args.scale))
        # Thorough shards are capped, so that a run makes steady progress.
        shards = max(1, min(8 if tier == 'quick' else 32, total // CHUNK))
        for s in range(shards):
            num = total // shards + (1 if s < total % shards else 0)
            tasks.append((pid, f.name, s, num, seed, deadline))
    workers = args.workers or min(8, os.cpu_count() or 1)
    # Import before forking, so that workers start quickly.
    import hypothesis, hypothesis.strategies, tables, scipy.io
    results = []
    with cf.ProcessPoolExecutor(workers,
            mp_context=multiprocessing.get_context('fork')) as pool:
        for res in pool.map(run_task, *zip(*tasks)):
            results.append(res)

    findings = read_findings()
    violations, errors, known = [], [], {}
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[],
        facets={})
    rules = []
    for f in facets:
        rs = [r for r in results if r['name'] == f.name]
        hashes = set().union(*[r['hashes'] for r in rs])
        classes = {}
        for r in rs:
            for c, n in r['classes'].items():
                classes[c] = classes.get(c, 0) + n
            known.update(r['known'])
            if r['failure']:
                violations.append((f.name,) + r['failure'])
            if r['error']:
                errors.append((f.name, r['error']))
        ev = sum(r['evaluations'] for r in rs)
        cov['evaluations'] += ev
        cov['distinct_nontrivial'] += len(hashes)
        rules.append('%s: %s' % (f.name, f.rule))
        cov['facets'][f.name] = dict(evaluations=ev,
            distinct_nontrivial=len(hashes), classes=classes)
        texts = [t for r in rs for t in r['samples']]
        texts.sort(key=len)
        for t in texts[len(texts) // 2:][:2]:
            cov['samples'].append(dict(facet=f.name, case=json.loads(t)))
    cov['rule'] = ' | '.join(rules)
    for key, what in sorted(known.items()):
        if (pid, key) in findings:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid,
                findings[(pid, key)], what))
        else:
            violations.append(('known', json.dumps(key), 'unlisted: ' + what))

    evidence = dict(property=pid, tier=tier, seed=seed, level='exploration',
        coverage=cov, wall_s=round(time.monotonic() - start, 2),
        violations=len(violations),
        known_findings=sorted(known))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    for name, n in cov['facets'].items():
        print('%s/%s: %d cases, %d distinct non-trivial, %s' % (pid, name,
            n['evaluations'], n['distinct_nontrivial'], n['classes']))
    print('%s: %.1f s' % (pid, evidence['wall_s']))
    if violations:
        violations.sort(key=lambda v: len(v[1]))
        seen = set()
        for name, text, msg in violations:
            if name in seen:
                continue
            seen.add(name)
            path = write_replay(pid, name, text, msg)
            print(msg)
            print('case (%s): %s' % (name, core.short(text, 1500)))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for name, err in errors:
            print('ERROR in facet %s:\n%s' % (name, err))
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        # 1 is only for violations.
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
