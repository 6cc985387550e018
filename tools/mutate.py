"""Mutation analysis of the checks

usage: mutate.py gen OUT.json            list mutants of the package
       mutate.py tests OUT.json N        run existing tests, N in parallel
       mutate.py checks OUT.json [SCALE] run mapped checks on mutants which
                                         pass the tests and were not checked

State is kept in OUT.json (a list of mutants with results).
"""
import ast
import concurrent.futures
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
SRC = 'src_py/hat/event'
PY = '/opt/venv/bin/python'

MAP = [
    ('common/subscription/', 'C01 C20'),
    ('common/matches.py', 'C01'),
    ('common/collection/', 'C02 C17'),
    ('common/encoder.py', 'C04'),
    ('common/common.py', 'C05 C03'),
    ('common/__init__.py', ''),
    ('common/module.py', 'C35'),
    ('common/backend.py', 'C35'),
    ('common/', 'C03 C05 C16'),
    ('backends/memory.py', 'C28'),
    ('backends/dummy.py', 'C28'),
    ('backends/lmdb/convert/', 'C29'),
    ('backends/lmdb/manager/', 'C29'),
    ('backends/lmdb/conditions.py', 'C11'),
    ('backends/lmdb/latestdb.py', 'C06 C12'),
    ('backends/lmdb/timeseriesdb.py', 'C07 C14 C12 C08 C13'),
    ('backends/lmdb/refdb.py', 'C09 C14 C12 C08 C13'),
    ('backends/lmdb/systemdb.py', 'C10 C12 C13'),
    ('backends/lmdb/environment.py', 'C15 C12 C13'),
    ('backends/lmdb/', 'C15 C10 C12 C09 C13 C29'),
    ('manager/', 'C30'),
    ('adminer/', 'C26 C31'),
    ('eventer/', 'C21 C20 C22 C31'),
    ('component.py', 'C27'),
    ('server/engine.py', 'C16 C17 C18'),
    ('server/engine_runner.py', 'C19 C34 C32 C33'),
    ('server/eventer_client_runner.py', 'C25 C33'),
    ('server/eventer_client.py', 'C23 C24 C25 C33'),
    ('server/eventer_server.py', 'C22 C20 C19 C32'),
    ('server/main.py', 'C35'),
    ('server/adminer_server.py', 'C26 C35'),
    ('server/', 'C34 C32 C33'),
]


def checks_of(path):
    return next(v for k, v in MAP if path.startswith(k)).split()


def gen_file(path):
    text = (REPO / SRC / path).read_text()
    data = text.encode()
    starts = [0]
    for line in data.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))
    tree = ast.parse(text)

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def add(node, new, kind):
        a, b = span(node)
        old = data[a:b].decode()
        if new == old:
            return
        mutated = (data[:a] + new.encode() + data[b:]).decode()
        try:
            compile(mutated, path, 'exec')
        except SyntaxError:
            return
        out.append({'path': path, 'line': node.lineno, 'kind': kind,
                    'a': a, 'b': b, 'old': old[:200], 'new': new})

    ops = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
           ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
           ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    skip = set()
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            child.parent = node
        # annotations and docstrings are not behaviour
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for i in ast.walk(node.args):
                if isinstance(i, ast.arg) and i.annotation:
                    skip.update(map(id, ast.walk(i.annotation)))
            if node.returns:
                skip.update(map(id, ast.walk(node.returns)))
        if isinstance(node, ast.AnnAssign):
            skip.update(map(id, ast.walk(node.annotation)))
        if isinstance(node, ast.Expr) and (
                isinstance(node.value, ast.Constant)
                or seg(node).startswith(('mlog.', 'log.', '_log'))):
            skip.update(map(id, ast.walk(node)))
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            add(node, f'{seg(node.left)} {ops[type(node.ops[0])]} '
                      f'{seg(node.comparators[0])}', 'compare')
        elif isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            add(node, '(' + op.join(f'({seg(i)})' for i in node.values) + ')',
                'boolop')
            for i in node.values:
                rest = [f'({seg(j)})' for j in node.values if j is not i]
                op2 = ' and ' if isinstance(node.op, ast.And) else ' or '
                add(node, '(' + op2.join(rest) + ')', 'dropoperand')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, f'({seg(node.operand)})', 'not')
        elif isinstance(node, ast.BinOp):
            op = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//',
                  ast.FloorDiv: '*'}.get(type(node.op))
            if op:
                add(node, f'({seg(node.left)}) {op} ({seg(node.right)})',
                    'binop')
        elif isinstance(node, ast.Constant):
            p = getattr(node, 'parent', None)
            if isinstance(p, ast.JoinedStr):
                continue
            if isinstance(node.value, bool):
                add(node, str(not node.value), 'const')
            elif isinstance(node.value, int):
                add(node, str(node.value + 1), 'const')
        elif isinstance(node, (ast.If, ast.While)):
            if not (isinstance(node.test, ast.Constant)):
                add(node.test, 'True', 'cond')
                add(node.test, 'False', 'cond')
        elif isinstance(node, ast.IfExp):
            add(node, f'({seg(node.body)})', 'ifexp')
            add(node, f'({seg(node.orelse)})', 'ifexp')
        elif isinstance(node, ast.comprehension):
            for i in node.ifs:
                add(i, 'True', 'compif')
        elif isinstance(node, (ast.Expr, ast.Raise, ast.Delete,
                               ast.AugAssign)):
            add(node, 'pass', 'delete')
        elif isinstance(node, ast.Assign):
            if any(isinstance(t, (ast.Attribute, ast.Subscript))
                   for t in node.targets):
                add(node, 'pass', 'delete')
        elif isinstance(node, ast.Continue):
            add(node, 'pass', 'delete')
            add(node, 'break', 'loop')
        elif isinstance(node, ast.Break):
            add(node, 'pass', 'delete')
        elif isinstance(node, ast.Return) and node.value:
            add(node, 'pass', 'delete')
        elif isinstance(node, ast.Call):
            for k in node.keywords:
                a, b = span(node)
                parts = [seg(i) for i in node.args] + [
                    (f'{j.arg}={seg(j.value)}' if j.arg
                     else f'**{seg(j.value)}')
                    for j in node.keywords if j is not k]
                add(node, f'{seg(node.func)}({", ".join(parts)})', 'dropkw')
            if (len(node.args) == 2 and not node.keywords
                    and not any(isinstance(i, ast.Starred)
                                for i in node.args)):
                add(node, f'{seg(node.func)}({seg(node.args[1])}, '
                          f'{seg(node.args[0])})', 'swap')
            if (isinstance(node.func, ast.Attribute)
                    and node.func.attr == 'shield'):
                add(node, seg(node.args[0]), 'unshield')
            if (isinstance(node.func, ast.Name)
                    and node.func.id in ('reversed', 'sorted', 'list')
                    and len(node.args) == 1):
                add(node, seg(node.args[0]), 'unwrap')
        elif isinstance(node, ast.Subscript):
            pass
    seen = set()
    for i in out:
        key = i['a'], i['b'], i['new']
        if key not in seen:
            seen.add(key)
            yield i


TESTS = [
    ('common/', 'test_common test_backends test_eventer'),
    ('backends/lmdb/convert/', None),
    ('backends/lmdb/manager/', None),
    ('backends/', 'test_backends'),
    ('manager/', None),
    ('adminer/', 'test_adminer'),
    ('eventer/', 'test_eventer'),
    ('component.py', 'test_component.py'),
    ('server/', 'test_server')]


def tests_of(path):
    dirs = next(v for k, v in TESTS if path.startswith(k))
    if dirs is None:
        return
    return [f'test_pytest/{i}' for i in dirs.split()]


def apply(repo, m):
    p = repo / SRC / m['path']
    data = (REPO / SRC / m['path']).read_bytes()
    p.write_bytes(data[:m['a']] + m['new'].encode() + data[m['b']:])


def restore(repo, m):
    shutil.copy(REPO / SRC / m['path'], repo / SRC / m['path'])


def main():
    action, out = sys.argv[1], pathlib.Path(sys.argv[2])
    if action == 'gen':
        res = []
        for p in sorted((REPO / SRC).rglob('*.py')):
            path = str(p.relative_to(REPO / SRC))
            if ('ctree' in path or 'csubscr' in path or path == '__init__.py'
                    or path.endswith('__main__.py')):
                continue
            res.extend(gen_file(path))
        for n, i in enumerate(res):
            i['id'] = n
        out.write_text(json.dumps(res, indent=0))
        print(len(res))
        return

    state = json.loads(out.read_text())
    lock = threading.Lock()

    def save():
        with lock:
            tmp = out.with_suffix('.tmp')
            tmp.write_text(json.dumps(state, indent=0))
            tmp.rename(out)

    work = pathlib.Path(tempfile.mkdtemp(prefix='mutate-', dir='/dev/shm'))
    try:
        if action == 'tests':
            n = int(sys.argv[3])
            todo = [i for i in state if 'tests' not in i]
            repos = []
            for i in range(n):
                repo = work / f'repo{i}'
                subprocess.run(['cp', '-a', str(REPO), str(repo)], check=True)
                repos.append(repo)

            def run(m):
                with lock:
                    repo = repos.pop()
                try:
                    dirs = tests_of(m['path'])
                    if dirs is None:
                        m['tests'] = 0
                        return
                    apply(repo, m)
                    env = {**os.environ, 'PYTHONPATH': str(repo / 'src_py'),
                           'PYTHONDONTWRITEBYTECODE': '1',
                           'PYTHONHASHSEED': '0',
                           'PATH': '/opt/venv/bin:' + os.environ['PATH']}
                    tmp = pathlib.Path(tempfile.mkdtemp(dir=work))
                    try:
                        r = subprocess.run(
                            [PY, '-m', 'pytest', '-q', '-x', '-p',
                             'hat.doit.pytest', '--unit', '-p',
                             'no:cacheprovider', '--timeout=20',
                             '--ignore=test_pytest/test_common/'
                             'test_collection.py',
                             '--ignore=test_pytest/test_common/'
                             'test_collection_perf.py',
                             '--ignore=test_pytest/test_common/'
                             'test_subscription.py',
                             '--ignore=test_pytest/test_common/'
                             'test_subscription_perf.py',
                             f'--basetemp={tmp}/pytest', *dirs],
                            cwd=repo, env=env, capture_output=True,
                            timeout=300, start_new_session=True)
                        m['tests'] = r.returncode
                    except subprocess.TimeoutExpired:
                        m['tests'] = 99
                    finally:
                        shutil.rmtree(tmp, ignore_errors=True)
                finally:
                    restore(repo, m)
                    with lock:
                        repos.append(repo)

            with concurrent.futures.ThreadPoolExecutor(n) as ex:
                for k, _ in enumerate(ex.map(run, todo)):
                    if k % 50 == 0:
                        save()
                        print(k, '/', len(todo), flush=True)
            save()

        elif action == 'checks':
            scale = sys.argv[3] if len(sys.argv) > 3 else '1'
            n = int(sys.argv[4]) if len(sys.argv) > 4 else 1
            key = f'check{scale}'
            repos = []
            for i in range(n):
                repo = work / f'repo{i}'
                subprocess.run(['cp', '-a', str(REPO), str(repo)], check=True)
                repos.append(repo)
            # not detected with other scale yet
            todo = [i for i in state
                    if i.get('tests') == 0 and key not in i and
                    not any(i[k][-1][1] for k in i
                            if k.startswith('check') and i[k])]

            random.Random(1).shuffle(todo)

            def run(m):
                with lock:
                    repo = repos.pop()
                apply(repo, m)
                result = []
                for c in checks_of(m['path']):
                    env = {**os.environ, 'VERIF_REPO': str(repo),
                           'VERIF_SHRINK': '0', 'VERIF_LIMIT': '200',
                           'VERIF_SHARDS': str(max(1, 8 // n))}
                    r = subprocess.run(
                        [str(VERIF / 'check'), c, 'quick', '--no-evidence',
                         '--scale', scale], env=env, capture_output=True,
                        text=True)
                    result.append([c, r.returncode])
                    if r.returncode:
                        m['msg'] = (r.stdout + r.stderr)[:200]
                        break
                else:
                    print('MISSED', m['id'], m['path'], m['line'], m['kind'],
                          repr(m['old'][:60]), '->', repr(m['new'][:60]),
                          flush=True)
                with lock:
                    m[key] = result
                restore(repo, m)
                with lock:
                    repos.append(repo)

            with concurrent.futures.ThreadPoolExecutor(n) as ex:
                for k, _ in enumerate(ex.map(run, todo)):
                    if k % 20 == 0:
                        save()
                        print(k, '/', len(todo), flush=True)
            save()
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    main()
