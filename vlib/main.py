"""Check entry point: runs shards of a property's check in worker processes."""
import argparse
import importlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vlib import build
from vlib import core

NSHARDS = int(os.environ.get('VERIF_SHARDS', '8'))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('tier', nargs='?',
                        default=os.environ.get('VERIF_TIER', 'quick'),
                        choices=['quick', 'thorough'])
    parser.add_argument('--replay', type=pathlib.Path)
    parser.add_argument('--sub')
    parser.add_argument('--scale', type=float, default=1)
    parser.add_argument('--no-evidence', action='store_true')
    args = parser.parse_args()

    seed = int(os.environ.get('VERIF_SEED', '1'))
    limit = int(os.environ.get(
        'VERIF_LIMIT', '800' if args.tier == 'quick' else '7200'))
    start = time.monotonic()

    base = pathlib.Path(tempfile.mkdtemp(prefix=f'verif-{args.prop}-',
                                         dir=build.scratch_base()))
    procs = []
    try:
        return _run(args, seed, limit, base, procs, start)

    finally:
        for proc in procs:
            if proc.poll() is None:
                os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()
        shutil.rmtree(base, ignore_errors=True)


def _run(args, seed, limit, base, procs, start):
    overlay = build.create(base)

    env = {**os.environ,
           'PYTHONPATH': f'{overlay}:{core.VERIF}',
           'PYTHONHASHSEED': '0',
           'PYTHONDONTWRITEBYTECODE': '1',
           'VERIF_OVERLAY': str(overlay),
           'TZ': 'UTC'}
    env.pop('PYTHONWARNINGS', None)
    source = core.VERIF / f'checks/{args.prop.lower()}.py'
    if '\nC_EXTENSIONS = True\n' in source.read_text():
        env.update(build.create_extensions(base, overlay))

    nshards = 1 if args.replay else NSHARDS
    outs = []
    for shard in range(nshards):
        shard_dir = base / f'shard{shard}'
        shard_dir.mkdir()
        out = shard_dir / 'result.json'
        conf = {'prop': args.prop, 'tier': args.tier, 'seed': seed,
                'shard': shard, 'nshards': nshards, 'out': str(out),
                'tmp': str(shard_dir / 'tmp'), 'scale': args.scale,
                'sub': args.sub,
                'replay': str(args.replay.resolve()) if args.replay else None}
        (shard_dir / 'tmp').mkdir()
        log = (open(shard_dir / 'log', 'wb')
               if not os.environ.get('VERIF_DEBUG') else None)
        procs.append(subprocess.Popen(
            [build.PY, '-W', 'ignore', '-m', 'vlib.worker', json.dumps(conf)],
            env=env, cwd=str(shard_dir), stdout=log, stderr=log,
            start_new_session=True))
        outs.append(out)

    results = [None] * nshards
    while any(i is None for i in results):
        time.sleep(0.05)
        for shard, proc in enumerate(procs):
            if results[shard] is not None or proc.poll() is None:
                continue
            try:
                results[shard] = json.loads(outs[shard].read_text())
            except Exception:
                log = (base / f'shard{shard}/log')
                results[shard] = {
                    'status': 'error', 'subs': {},
                    'error': f'worker exited with {proc.returncode}: ' +
                    (log.read_text(errors='replace')[-4000:]
                     if log.exists() else '')}
        if any(i and i['status'] == 'violation' for i in results):
            break
        if time.monotonic() - start > limit:
            print(f'error: time limit {limit} s exceeded', file=sys.stderr)
            return 3

    done = [i for i in results if i]
    violation = next((i for i in done if i['status'] == 'violation'), None)
    error = next((i for i in done if i['status'] == 'error'), None)

    if args.replay:
        if violation:
            print(violation['message'][:3000])
            print(f'VIOLATION property={args.prop} replay={args.replay}')
            return 1
        if error:
            print(error['error'], file=sys.stderr)
            return 2
        print('no violation')
        return 0

    if error and not violation:
        print(error['error'], file=sys.stderr)
        return 2

    if not args.no_evidence:
        _write_evidence(args, seed, done, start, 1 if violation else 0)

    for line in sorted({j for i in done for j in i.get('known', [])}):
        print(f'KNOWN-FINDING: property={args.prop} {line}')

    if violation:
        replays = core.VERIF / 'replays'
        replays.mkdir(exist_ok=True)
        replay = {'property': args.prop, 'sub': violation['sub'],
                  'case': violation['case'],
                  'message': violation['message']}
        path = replays / (f"{args.prop}-{violation['sub']}-"
                          f"{core.digest(violation['case']):016x}.json")
        path.write_text(json.dumps(replay, indent=1) + '\n')
        print(violation['message'][:3000])
        print(f'VIOLATION property={args.prop} replay={path}')
        return 1

    for name, sub in _merge(done).items():
        print(f"{args.prop}/{name}: {sub['evaluations']} cases, "
              f"{len(sub['nontrivial'])} distinct non-trivial, "
              f"labels {dict(sorted(sub['labels'].items()))}")
    print(f'{args.prop}: held on everything explored '
          f'({time.monotonic() - start:.1f} s)')
    return 0


def _merge(results):
    subs = {}
    for result in results:
        for name, sub in result['subs'].items():
            dst = subs.setdefault(name, {'evaluations': 0,
                                         'nontrivial': set(),
                                         'labels': {}, 'samples': [],
                                         'rule': sub['rule']})
            dst['evaluations'] += sub['evaluations']
            dst['nontrivial'].update(sub['nontrivial'])
            for k, v in sub['labels'].items():
                dst['labels'][k] = dst['labels'].get(k, 0) + v
            if len(dst['samples']) < 3:
                dst['samples'].extend(sub['samples'][:1])
    return subs


def _write_evidence(args, seed, results, start, violations):
    sys.path.insert(0, str(core.VERIF))
    subs = _merge(results)
    manifest = json.loads((core.VERIF / 'MANIFEST.json').read_text())
    entry = next((i for i in manifest['checks']
                  if i['property'] == args.prop), {})
    evidence = {
        'property': args.prop,
        'tier': args.tier,
        'seed': seed,
        'level': entry.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(i['evaluations'] for i in subs.values()),
            'distinct_nontrivial': sum(len(i['nontrivial'])
                                       for i in subs.values()),
            'rule': ' | '.join(f"{k}: {v['rule']}" for k, v in subs.items()),
            'samples': [{'sub': k, 'case': j}
                        for k, v in subs.items() for j in v['samples']],
            'per_generator': {
                k: {'evaluations': v['evaluations'],
                    'distinct_nontrivial': len(v['nontrivial']),
                    'labels': dict(sorted(v['labels'].items()))}
                for k, v in subs.items()}},
        'assumptions': [entry.get('level_note', '')],
        'wall_s': round(time.monotonic() - start, 2),
        'violations': violations}
    path = core.VERIF / 'evidence' / f'{args.prop}.json'
    path.parent.mkdir(exist_ok=True)
    path.write_text(json.dumps(evidence, indent=1) + '\n')


if __name__ == '__main__':
    sys.exit(main())
