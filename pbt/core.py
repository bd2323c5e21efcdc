"""Building blocks shared by the property modules."""
import hashlib
import json


class Violation(AssertionError):
    """The property does not hold for the generated case."""


class KnownFinding(Exception):
    """Raised by a check when the observed deviation is exactly a listed known finding."""

    def __init__(self, kid, msg=""):
        super().__init__(f"{kid}: {msg}")
        self.kid = kid


def expect(_ok, _msg, /, **info):
    if not _ok:
        msg = _msg
        if info:
            msg = msg + " | " + ", ".join(f"{k}={_short(v)}" for k, v in info.items())
        raise Violation(msg)


def _short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """Per-case recorder: what class the case fell in, and whether it was non-trivial."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []
        self.note = None
        self.skipped = False

    def nontrivial(self, flag=True):
        self.is_nontrivial = bool(flag) or self.is_nontrivial

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


class Sub:
    """One executable statement of (part of) a property.

    strategy : zero-argument function returning a Hypothesis strategy of JSON-able cases
    check    : function(case, ctx) raising Violation when the property is broken
    quick / thorough : number of generated cases in each tier
    """

    def __init__(self, name, strategy, check, quick, thorough, rule, regress=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.regress = list(regress)


class Prop:
    def __init__(self, pid, subs, assumptions=(), jobs=8):
        self.pid = pid
        self.subs = list(subs)
        self.assumptions = list(assumptions)
        self.jobs = jobs


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()
