"""Shared vocabulary of the checks: Violation, sut() guard, Check, Recorder."""
import contextlib
import json


class Violation(Exception):
    """The code under test broke the property on this case."""


class OutOfDomain(Exception):
    """The case is outside what the property quantifies over (counted, not judged)."""


class CaseTimeout(BaseException):
    """The per-case CPU budget is used up: inconclusive."""


@contextlib.contextmanager
def sut(what):
    """Run a call of the code under test: the generated inputs are valid, so an exception
    raised by it is a violation.  Exceptions of the harness itself never pass through here."""
    try:
        yield
    except (Violation, OutOfDomain):
        raise
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]}") from e


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Check:
    """One generated check. `run(case, rec)` raises Violation when the property is broken.
    `case` is plain JSON data drawn from `strategy()`; `rec` records labels and non-triviality."""

    def __init__(self, name, strategy, run, quick, thorough, cpu=60, doc=''):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.cpu, self.doc = quick, thorough, cpu, doc


class Recorder:
    """What one execution of a check says about its case."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *labels):
        self.labels.update(labels)

    def trivial_unless(self, cond):
        self.nontrivial = bool(cond)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))
