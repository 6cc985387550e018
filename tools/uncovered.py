"""Lines never executed by checks: uncovered.py DIR (VERIF_COVER=DIR ./check ...)"""
import ast
import json
import pathlib
import sys

SRC = pathlib.Path('/repo/src_py')
hit = {}
for p in pathlib.Path(sys.argv[1]).glob('*.json'):
    for f, n in json.loads(p.read_text()):
        hit.setdefault(f, set()).add(n)
for p in sorted(SRC.rglob('*.py')):
    f = str(p.relative_to(SRC))
    tree = ast.parse(p.read_text())
    lines = p.read_text().splitlines()
    want = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            want.add(n.lineno)
    miss = sorted(want - hit.get(f, set()))
    print(f'{f}: {len(miss)}/{len(want)}')
    if f in hit:
        for n in miss:
            print(f'    {n}: {lines[n - 1].strip()}')
