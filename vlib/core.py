"""Basic definitions shared by all checks."""
import hashlib
import json
import os
import pathlib
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))


raised = []
"""Violations raised by the current case (code under test may suppress them)"""


class Violation(Exception):
    """Property does not hold for the case"""

    def __init__(self, *args):
        super().__init__(*args)
        raised.append(self)


class HarnessError(Exception):
    """Check itself failed"""


class NonTermination(BaseException):
    """CPU limit of single case exceeded"""


def digest(case) -> int:
    data = json.dumps(case, sort_keys=True, ensure_ascii=True).encode()
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(),
                          'big')


class Ctx:
    """Statistics of a single case"""

    __slots__ = ('labels', 'nontrivial', 'tmp')

    def __init__(self, tmp=None):
        self.labels = {}
        self.nontrivial = False
        self.tmp = tmp

    def label(self, name, count=1):
        self.labels[name] = self.labels.get(name, 0) + count


class Sub:
    """Single generator/oracle pair of a property"""

    def __init__(self, name, strategy, run, quick, thorough, rule):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def from_product(exc, overlay) -> bool:
    """Is code under test part of exception's traceback (or its causes)"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame in traceback.extract_tb(exc.__traceback__):
            if frame.filename.startswith(overlay):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def describe(exc) -> str:
    return ''.join(traceback.format_exception(exc))
