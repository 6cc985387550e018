"""Verify a planted bug in scratch copies and store it in seeded/<id>/

usage: mkseed.py SPEC.py [--no-check]

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(path, old, new)...] and
DEMO (python source, run with cwd of the tree and its src_py on path).
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
spec = runpy.run_path(sys.argv[1])
dst = VERIF / 'seeded' / spec['ID']
work = pathlib.Path(tempfile.mkdtemp(prefix='seed-', dir='/tmp'))
code = 1


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


try:
    repo = work / 'repo'
    subprocess.run(['cp', '-a', '/repo', str(repo)], check=True)
    demo = work / 'demo'
    demo.mkdir()
    (demo / 'demo.py').write_text(spec['DEMO'].lstrip())
    (demo / 'demo.sh').write_text(
        '#!/bin/bash\n'
        'export PYTHONPATH="$PWD/src_py" PYTHONDONTWRITEBYTECODE=1\n'
        'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')

    def run_demo():
        return sh(['bash', str(demo / 'demo.sh')], repo)

    base = run_demo()
    for path, old, new in spec['EDITS']:
        p = repo / 'src_py/hat/event' / path
        s = p.read_text()
        if s.count(old) != 1:
            raise SystemExit(f'{path}: {s.count(old)} matches of {old!r}')
        p.write_text(s.replace(old, new))
    patch = sh(['git', 'diff', 'HEAD'], repo).stdout
    scripts = []
    for name in ('build.sh', 'test.sh'):
        text = pathlib.Path(f'/opt/vp/{name}').read_text()
        text = text.replace('/opt/vp/build.sh', str(work / 'build.sh'))
        (work / name).write_text(text.replace('/repo', str(repo)))
    build = sh(['bash', str(work / 'build.sh')], repo)
    bad = run_demo()
    out = work / 'out.json'
    test = sh(['bash', str(work / 'test.sh'), str(out)], repo)
    res = json.loads(out.read_text())
    stable = json.loads(pathlib.Path('/opt/vp/BASELINE.json').read_text()
                        )['stable']
    passed = set(res.get('passed', res.get('pass', [])))
    failed = [i for i in stable if i not in passed]
    print(spec['ID'], 'base', base.returncode, 'patched', bad.returncode,
          'build', build.returncode, 'failing tests', len(failed), failed[:3])
    if base.returncode or not bad.returncode or build.returncode:
        print('--- base', base.stdout[-1500:], base.stderr[-1500:])
        print('--- patched', bad.stdout[-500:], bad.stderr[-500:])
    if not (base.returncode or not bad.returncode or build.returncode
            or failed):
        if dst.exists():
            shutil.rmtree(dst)
        dst.mkdir(parents=True)
        for name in ('demo.py', 'demo.sh'):
            shutil.copy(demo / name, dst / name)
        (dst / 'patch.diff').write_text(patch)
        (dst / 'meta.json').write_text(json.dumps(
            {'property': spec['PROP'], 'needs': spec['NEEDS'],
             'what_it_breaks': spec['BREAKS']}, indent=1) + '\n')
        code = 0
        print((bad.stderr or bad.stdout).strip()[-200:])
        if '--no-check' not in sys.argv:
            env = {**os.environ, 'VERIF_REPO': str(repo)}
            c = subprocess.run([str(VERIF / 'check'), spec['PROP'], 'quick',
                                '--no-evidence'], env=env,
                               capture_output=True, text=True)
            print('CHECK', spec['ID'], c.returncode, c.stdout.strip()[-400:])
finally:
    shutil.rmtree(work)
sys.exit(code)
