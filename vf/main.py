"""python3-vt vf/main.py Cnn [--tier quick|thorough] [--replay FILE] [--seed N]"""
import argparse
import glob
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from vf import core  # noqa: E402
from vf.core import Violation, HarnessError  # noqa: E402

KNOWN = os.path.join(core.VERIF, 'KNOWN_FINDINGS.txt')


def shard_main(prop, module, scratch, shard, shards, seed, tier, scale, q):
    try:
        core.drop_privileges()
        os.chdir(scratch.dir)
        os.environ['HOME'] = scratch.dir
        budget = (module.BUDGET if tier == 'quick' else
                  getattr(module, 'THOROUGH_BUDGET', 1500))
        ctx = core.Ctx(scratch, module.JY, getattr(module, 'WORKER_ENV', None),
                       getattr(module, 'RECYCLE', None))
        # identity hashes, and so set orders, differ between the shards
        ctx.hash_offset = shard * 13
        results = []
        try:
            tests = list(module.TESTS)
            # Rotate, so that a budget that runs out starves no one test.
            k = shard % len(tests)
            order = tests[k:] + tests[:k]
            end = time.monotonic() + budget
            total = float(sum(getattr(t, 'weight', 1) for t in tests))
            for i, test in enumerate(order):
                # the first shards replay the corpus
                out = {'test': test.name, 'evaluations': 0, 'skipped': 0,
                       'labels': {}, 'keys': {}, 'samples': [],
                       'replayed': 0}
                failure = None
                files = sorted(glob.glob(os.path.join(
                    core.VERIF, 'corpus', prop, test.name + '-*.json')))
                for n, path in enumerate(files):
                    if n % shards != shard:
                        continue
                    case = json.load(open(path))['case']
                    out['replayed'] += 1
                    try:
                        core.run_case(ctx, test, case)
                    except Violation as v:
                        failure = (case, str(v))
                        break
                if failure is None:
                    n = test.quick if tier == 'quick' else test.thorough
                    n = max(1, int(n * scale) // shards)
                    left = end - time.monotonic()
                    share = left / (len(order) - i) if i < len(order) else left
                    failure = core.run_test(
                        ctx, test, seed * 1000003 + shard * 101 + i * 7,
                        n, time.monotonic() + max(share, 5),
                        40 if tier == 'quick' else 240, out)
                out['keys'] = list(out['keys'])
                if failure:
                    out['failure'] = failure
                    out['confirmed'] = core.confirm(ctx, test, failure[0])
                results.append(out)
                if failure:
                    break
        finally:
            ctx.close()
        q.put(('ok', shard, results))
    except BaseException:
        q.put(('error', shard, traceback.format_exc()))


def known_findings(prop):
    found = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                found.append(line.split(' ', 2)[2])
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--labels', action='store_true')
    ap.add_argument('--test')
    args = ap.parse_args()
    prop = args.prop
    started = time.monotonic()
    module = importlib.import_module('vf.props.' + prop.lower())
    if args.test:
        module.TESTS = [t for t in module.TESTS if t.name == args.test]
    import hypothesis  # noqa: F401 (before giving up privileges)
    import hypothesis.internal.conjecture.engine  # noqa: F401
    import hypothesis.extra  # noqa: F401

    scratch = core.Scratch()
    try:
        if args.replay:
            return replay(args, prop, module, scratch)
        shards = args.shards or getattr(module, 'SHARDS', 6)
        mp = multiprocessing.get_context('fork')
        q = mp.Queue()
        procs = []
        for shard in range(shards):
            p = mp.Process(target=shard_main, args=(
                prop, module, scratch, shard, shards, args.seed, args.tier,
                args.scale, q))
            p.start()
            procs.append(p)
        answers = []
        while len(answers) < shards:
            try:
                answers.append(q.get(timeout=5))
            except Exception:
                if all(not p.is_alive() for p in procs) and q.empty():
                    break
        for p in procs:
            p.join()
    finally:
        scratch.close()
    errors = [a for a in answers if a[0] == 'error']
    if len(answers) < shards:
        errors.append(('error', -1, 'a shard ended without an answer'))
    return report(args, prop, module, answers, errors, started)


def clipped(value, length=200, items=40):
    """A sample, without the bulk of long contents"""
    if isinstance(value, str):
        return value if len(value) <= length else '%s... (%d characters)' % (
            value[:length], len(value))
    if isinstance(value, dict):
        return dict((k, clipped(v, length, items)) for k, v in value.items())
    if isinstance(value, list):
        return [clipped(v, length, items) for v in value[:items]] + (
            ['... (%d items)' % len(value)] if len(value) > items else [])
    return value


def report(args, prop, module, answers, errors, started):
    tests = {}
    failures = []
    samples = []
    for kind, shard, results in sorted(answers, key=lambda a: a[1]):
        if kind != 'ok':
            continue
        for out in results:
            t = tests.setdefault(out['test'], {
                'evaluations': 0, 'skipped': 0, 'labels': {}, 'keys': set(),
                'replayed': 0})
            for k in ('evaluations', 'skipped', 'replayed'):
                t[k] += out[k]
            t['keys'].update(out['keys'])
            for k, v in out['labels'].items():
                t['labels'][k] = t['labels'].get(k, 0) + v
            if len([s for s in samples if s['test'] == out['test']]) < 2:
                samples.extend(out['samples'][:1])
            if 'failure' in out:
                failures.append((len(json.dumps(out['failure'][0])),
                                 out['test'], out['failure'],
                                 out['confirmed']))
    rules = {t.name: t.rule for t in module.TESTS}
    coverage = {
        'evaluations': sum(t['evaluations'] for t in tests.values()),
        'distinct_nontrivial': sum(len(t['keys']) for t in tests.values()),
        'rule': ' | '.join('%s: %s' % (n, rules[n]) for n in sorted(tests)),
        'samples': clipped(samples),
        'replayed_corpus_cases': sum(t['replayed'] for t in tests.values()),
        'not_run_for_time': sum(t['skipped'] for t in tests.values()),
        'tests': {n: {'evaluations': t['evaluations'],
                      'distinct_nontrivial': len(t['keys']),
                      'classes': dict(sorted(t['labels'].items()))}
                  for n, t in sorted(tests.items())},
    }
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []) + [
            'ipkg runs under Jython 2.7.3 as an unprivileged user'],
        'wall_s': round(time.monotonic() - started, 1),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for finding in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, finding))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, '
          '%.1f s' % (prop, args.tier, args.seed, coverage['evaluations'],
                      coverage['distinct_nontrivial'],
                      coverage['not_run_for_time'], evidence['wall_s']))
    if args.labels:
        print(json.dumps(coverage['tests'], indent=1))
    if failures:
        failures.sort(key=lambda f: (-min(f[3], 1), f[0], f[1]))
        _, test, (case, message), confirmed = failures[0]
        d = os.path.join(core.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s.json' % (
            prop, test, core.case_key(case)))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'test': test, 'message': message,
                       'failed_again_of_3': confirmed, 'seed': args.seed,
                       'case': case}, f, indent=1)
        print('%s/%s: %s' % (prop, test, message))
        print('case: %s' % json.dumps(case)[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors:
            print('shard %s: %s' % (e[1], e[2][-1500:]), file=sys.stderr)
            break
        return 2
    if coverage['evaluations'] == 0:
        print('no case ran', file=sys.stderr)
        return 2
    return 0


def replay_child(args, module, scratch, data, q):
    try:
        core.drop_privileges()
        os.chdir(scratch.dir)
        ctx = core.Ctx(scratch, module.JY, getattr(module, 'WORKER_ENV', None))
        test = [t for t in module.TESTS if t.name == data['test']][0]
        try:
            for offset in (0, 7, 131):
                ctx.restart()
                ctx.hash_offset = offset
                try:
                    core.run_case(ctx, test, data['case'])
                except Violation as v:
                    q.put(('violation', str(v)))
                    return
        finally:
            ctx.close()
        q.put(('ok', ''))
    except BaseException:
        q.put(('error', traceback.format_exc()))


def replay(args, prop, module, scratch):
    data = json.load(open(args.replay))
    mp = multiprocessing.get_context('fork')
    q = mp.Queue()
    p = mp.Process(target=replay_child, args=(args, module, scratch, data, q))
    p.start()
    kind, message = q.get()
    p.join()
    print('%s/%s: %s %s' % (prop, data['test'], kind, message))
    if kind == 'violation':
        print('VIOLATION property=%s replay=%s' % (
            prop, os.path.abspath(args.replay)))
        return 1
    return 0 if kind == 'ok' else 2


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
