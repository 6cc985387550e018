"""Run the checks against planted bugs: seedcheck.py [ID...]"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
ids = sys.argv[1:] or sorted(p.name for p in (VERIF / 'seeded').iterdir()
                             if p.is_dir())
for i in ids:
    d = VERIF / 'seeded' / i
    prop = json.loads((d / 'meta.json').read_text())['property']
    work = pathlib.Path(tempfile.mkdtemp(prefix='seed-', dir='/tmp'))
    try:
        repo = work / 'repo'
        subprocess.run(['cp', '-a', '/repo', str(repo)], check=True)
        subprocess.run(['git', 'apply', str(d / 'patch.diff')], cwd=repo,
                       check=True)
        env = {**os.environ, 'VERIF_REPO': str(repo)}
        c = subprocess.run([str(VERIF / 'check'), prop, 'quick',
                            '--no-evidence'], env=env, capture_output=True,
                           text=True)
        print(i, prop, c.returncode, c.stdout.strip()[-160:].replace(
            '\n', ' | '), flush=True)
    finally:
        shutil.rmtree(work)
