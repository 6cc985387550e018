"""Worker process: explores one shard of a check."""
import importlib
import itertools
import json
import logging
import os
import pathlib
import resource
import shutil
import signal
import sys
import time

from vlib import core

CASE_CPU_LIMIT = 60


class Stats:

    def __init__(self, rule):
        self.rule = rule
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []

    def to_json(self):
        return {'rule': self.rule, 'evaluations': self.evaluations,
                'nontrivial': sorted(self.nontrivial), 'labels': self.labels,
                'samples': self.samples}


class Runner:

    def __init__(self, conf, sub, stats, known):
        self.conf = conf
        self.sub = sub
        self.stats = stats
        self.known = known
        self.counter = itertools.count(1)
        self.failure = None
        self.known_hits = set()

    def __call__(self, case):
        overlay = os.environ['VERIF_OVERLAY']
        # case is passed through JSON, so replay gets exactly the same data
        encoded = json.dumps(case)
        case = json.loads(encoded)
        tmp = pathlib.Path(self.conf['tmp']) / f'c{next(self.counter)}'
        tmp.mkdir()
        ctx = core.Ctx(tmp)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        started = time.process_time()
        core.raised.clear()
        try:
            self.sub.run(case, ctx)
            if core.raised:
                # raised in a callback and suppressed by the caller
                raise core.raised[0]

        except core.Violation as e:
            self._failed(case, str(e), e)
            raise

        except core.NonTermination as e:
            self._failed(case, f'no termination: {e}', e)
            raise

        except (core.HarnessError, MemoryError):
            raise

        except Exception as e:
            if not core.from_product(e, overlay):
                raise
            message = 'unexpected exception: ' + core.describe(e)
            self._failed(case, message, e)
            raise core.Violation(message) from e

        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            used = time.process_time() - started
            if os.environ.get('VERIF_SLOW') and used > 2:
                with open(os.environ['VERIF_SLOW'], 'a') as f:
                    f.write(f"{used:.1f} {self.conf['prop']} "
                            f'{self.sub.name}\n')
            vlib.patches.close_envs()
            shutil.rmtree(tmp, ignore_errors=True)

        stats = self.stats
        stats.evaluations += 1
        for k, v in ctx.labels.items():
            stats.labels[k] = stats.labels.get(k, 0) + v
        if ctx.nontrivial:
            value = core.digest(case)
            if value not in stats.nontrivial:
                stats.nontrivial.add(value)
                if len(stats.samples) < 2 and 40 < len(encoded) < 6000:
                    stats.samples.append(case)

    def _failed(self, case, message, exc):
        self.failure = {'sub': self.sub.name, 'case': case,
                        'message': message[:100_000]}


def _on_alarm(signum, frame):
    raise core.NonTermination(f'case uses more than {CASE_CPU_LIMIT} s of CPU')


def _cover(overlay):
    """Record executed lines of the code under test (VERIF_COVER)"""
    mon = sys.monitoring
    lines = set()

    def on_line(code, line):
        if code.co_filename.startswith(overlay):
            lines.add((code.co_filename[len(overlay) + 1:], line))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, 'verif')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


def main():
    conf = json.loads(sys.argv[1])
    lines = (_cover(os.environ['VERIF_OVERLAY'])
             if os.environ.get('VERIF_COVER') else None)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    logging.disable(logging.CRITICAL)

    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    global vlib
    import vlib.patches
    result = {'status': 'ok', 'subs': {}, 'known': []}
    try:
        module = importlib.import_module(f"checks.{conf['prop'].lower()}")
        if conf['replay']:
            _replay(conf, module, result)
        else:
            _explore(conf, module, result)
    except BaseException as e:
        if result['status'] == 'ok':
            result['status'] = 'error'
            result['error'] = core.describe(e)

    out = pathlib.Path(conf['out'])
    out.with_suffix('.tmp').write_text(json.dumps(result))
    out.with_suffix('.tmp').rename(out)
    sys.stdout.flush()
    if lines is not None:
        path = pathlib.Path(os.environ['VERIF_COVER'])
        (path / f"{conf['prop']}-{conf['shard']}.json").write_text(
            json.dumps(sorted(lines)))
    os._exit(0)


def _replay(conf, module, result):
    data = json.loads(pathlib.Path(conf['replay']).read_text())
    sub = next(i for i in module.SUBS if i.name == data['sub'])
    runner = Runner(conf, sub, Stats(sub.rule), [])
    try:
        runner(data['case'])
    except BaseException as e:
        _set_failure(result, runner, e)


def _set_failure(result, runner, e):
    if runner.failure and isinstance(e, (core.Violation,
                                         core.NonTermination)):
        result['status'] = 'violation'
        result.update(runner.failure)
    else:
        result['status'] = 'error'
        result['error'] = core.describe(e)


def _explore(conf, module, result):
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = int(os.environ.get('VERIF_SHRINK', '60'))

    for sub in module.SUBS:
        if conf['sub'] and sub.name != conf['sub']:
            continue
        stats = Stats(sub.rule)
        runner = Runner(conf, sub, stats, [])
        try:
            # saved regression cases
            for i, path in enumerate(sorted(
                    (core.VERIF / 'cases' / conf['prop']).glob('*.json'))):
                if i % conf['nshards'] != conf['shard']:
                    continue
                data = json.loads(path.read_text())
                if data['sub'] == sub.name:
                    runner(data['case'])

            total = getattr(sub, conf['tier'])
            count = max(1, int(total * conf['scale'] / conf['nshards']))
            test = hypothesis.given(sub.strategy())(_create_test(runner))
            test = hypothesis.settings(
                max_examples=count, deadline=None, database=None,
                report_multiple_bugs=False, print_blob=False,
                suppress_health_check=list(hypothesis.HealthCheck),
                phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink],
                verbosity=hypothesis.Verbosity.quiet)(test)
            seed = core.digest([conf['seed'], conf['shard'], conf['prop'],
                                sub.name])
            hypothesis.seed(seed)(test)()

        except BaseException as e:
            if os.environ.get('VERIF_DEBUG'):
                print(core.describe(e)[-3000:], file=sys.stderr)
            if runner.failure and not isinstance(e, (core.Violation,
                                                     core.NonTermination)):
                # e.g. hypothesis flakiness report: confirm directly
                for _ in range(5):
                    try:
                        runner(runner.failure['case'])
                    except BaseException as e2:
                        e = e2
                        break
            _set_failure(result, runner, e)
            return

        finally:
            result['subs'][sub.name] = stats.to_json()


def _create_test(runner):
    def test(case):
        runner(case)
    return test


if __name__ == '__main__':
    main()
