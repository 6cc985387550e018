"""Regenerates MANIFEST.json from checks/*.py and properties.jsonl"""
import ast
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent

TRUST = ('Search, not proof: nothing is claimed about inputs, schedules and '
         'faults outside of the generated ones. Trusted: the reference model '
         'and oracle of the check, hypothesis, CPython, lmdb, hat-sbs and '
         'hat-drivers. ')

checks = []
missing = []
for line in (root / 'properties.jsonl').read_text().splitlines():
    prop = json.loads(line)['id']
    path = root / 'checks' / f'{prop.lower()}.py'
    if not path.exists():
        missing.append({'property': prop,
                        'reason': 'check is not built yet'})
        continue
    consts = {}
    for node in ast.parse(path.read_text()).body:
        if (isinstance(node, ast.Assign) and
                getattr(node.targets[0], 'id', '') in ('TECHNIQUE', 'NOTE',
                                                       'LEVEL')):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        'property': prop,
        'quick_cmd': f'./check {prop} quick',
        'thorough_cmd': f'./check {prop} thorough',
        'technique': consts['TECHNIQUE'],
        'level': consts.get('LEVEL', 'exploration'),
        'level_note': TRUST + consts['NOTE']})

(root / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks are added to /repo: checks observe public interfaces '
             'and replace clock, event loop, network and lmdb.Environment '
             'from outside. Known findings and repaired defects are listed '
             'in known_findings.txt.'}, indent=1) + '\n')
