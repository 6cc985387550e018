"""Overlay build: copy of /repo's sources with generated schema repositories.

Nothing is written to /repo.
"""
import pathlib
import shutil
import subprocess
import sys
import tempfile

from vlib import core

PY = '/opt/venv/bin/python'

_gen = r'''
import sys, pathlib
import hat.json, hat.sbs
repo, dst = map(pathlib.Path, sys.argv[1:])
hat.json.encode_file(
    hat.json.create_schema_repository(
        *sorted((repo / 'schemas_json').rglob('*.yaml'))),
    dst / 'json_schema_repo.json', indent=None)
hat.json.encode_file(
    hat.sbs.Repository(*sorted((repo / 'schemas_sbs').rglob('*.sbs'))).to_json(),
    dst / 'sbs_repo.json', indent=None)
'''


def scratch_base():
    import os
    for i in ('/dev/shm', '/tmp'):
        if os.path.isdir(i) and os.access(i, os.W_OK):
            return i
    return tempfile.gettempdir()


def create(base: pathlib.Path) -> pathlib.Path:
    """Build overlay in `base`, returns python path"""
    dst = base / 'src_py'
    shutil.copytree(core.REPO / 'src_py', dst,
                    ignore=shutil.ignore_patterns(
                        '__pycache__', '*.pyc', 'json_schema_repo.json',
                        'sbs_repo.json'))
    subprocess.run([PY, '-c', _gen, str(core.REPO),
                    str(dst / 'hat/event/common')],
                   check=True, cwd=str(base))
    return dst


def create_extensions(base: pathlib.Path, overlay: pathlib.Path) -> dict:
    """Build C extensions into overlay, returns environment of workers

    Sources are those of /repo, except of hash table and allocator which are
    parts of another repository and replaced with stand-ins (vlib/cext).
    Address sanitizer stops the process on invalid access to memory.
    """
    shim = core.VERIF / 'vlib/cext'
    include = subprocess.run(
        [PY, '-c', 'import sysconfig; print(sysconfig.get_path("include"))'],
        check=True, capture_output=True, text=True).stdout.strip()
    for src, dst in (
            ('subscription/_csubscription', 'subscription/_csubscription'),
            ('collection/_ctree', 'collection/_ctree')):
        subprocess.run(
            ['gcc', '-shared', '-fPIC', '-O1', '-g', '-w',
             '-fsanitize=address', '-fno-omit-frame-pointer',
             f'-I{include}', f'-I{shim}', '-include', 'count.h',
             str(core.REPO / f'src_c/py/{src}.c'), str(shim / 'hat/ht.c'),
             str(shim / 'count.c'),
             '-o', str(overlay / f'hat/event/common/{dst}.so')],
            check=True, cwd=str(base))
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], check=True,
                         capture_output=True, text=True).stdout.strip()
    return {'LD_PRELOAD': lib,
            'PYTHONMALLOC': 'malloc',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=86:'
                            'handle_segv=1:allocator_may_return_null=1'}
