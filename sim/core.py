"""Core of the simulator: recorded choices, run context, violations, case bookkeeping.

Everything a run does is a pure function of (workload, choice list | seed, code under test):
every nondeterministic decision is drawn through `Ctx.pick`, which records it, so that a run can
be replayed from the recorded list and shrunk by editing that list.
"""

import hashlib
import json
import os
import random
import sys

REPO = os.environ.get("ABC_REPO", "/repo")


class Violation(Exception):
    """The property is broken. `cls` names the kind of breakage (kept stable while shrinking)."""

    def __init__(self, cls, message, **detail):
        super().__init__(f"[{cls}] {message}")
        self.cls = cls
        self.message = message
        self.detail = detail

    def within(self, stage):
        """the same violation, seen at a certain stage; known findings keep their name"""
        return self if self.cls == "sav-float-tie" else Violation(f"{stage}:{self.cls}", self.message)


class SimUnsupported(BaseException):
    """The code under test used a part of a simulated interface that the simulator lacks.

    BaseException: the code under test must not swallow it. The case is skipped and counted."""


class SimBudget(BaseException):
    """A deterministic step budget of the simulator was exhausted (possible non-termination)."""


class Discard(Exception):
    """The generated case is not usable (e.g. too large for the oracle)."""


def derive_seed(*parts):
    digest = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(digest[:8], "big")


class Ctx:
    """One simulated run: source of all choices, event log and coverage counters."""

    def __init__(self, seed=0, choices=None):
        self.seed = seed
        self.replaying = choices is not None
        self._given = list(choices) if choices is not None else []
        self._rng = random.Random(seed)
        self.choices = []  # recorded [value]
        self.kinds = []
        self.events = []
        self.counters = {}
        self.states = set()
        self.skipped = None
        self.nontrivial = False  # set by the property when the run exercised something real

    # ---- choices -------------------------------------------------------------------------
    def pick(self, kind, n, weights=None):
        """Choose an int in range(n). 0 must be the 'nothing unusual' choice."""
        if n <= 1:
            return 0
        idx = len(self.choices)
        if self.replaying:
            value = self._given[idx] if idx < len(self._given) else 0
            value = int(value) % n
        elif weights is not None:
            value = self._rng.choices(range(n), weights=weights)[0]
        else:
            value = self._rng.randrange(n)
        self.choices.append(value)
        self.kinds.append(kind)
        return value

    def chance(self, kind, percent):
        """True with the given probability (0..100); recorded as 0/1."""
        idx = len(self.choices)
        if self.replaying:
            value = 1 if (idx < len(self._given) and int(self._given[idx]) != 0) else 0
        else:
            value = 1 if self._rng.randrange(100) < percent else 0
        self.choices.append(value)
        self.kinds.append(kind)
        return bool(value)

    # ---- observation (never draws) -------------------------------------------------------
    def log(self, *event):
        self.events.append(event)

    def count(self, name, by=1):
        self.counters[name] = self.counters.get(name, 0) + by

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def digest(self):
        h = hashlib.sha256()
        for event in self.events:
            h.update(repr(event).encode())
            h.update(b"\n")
        return h.hexdigest()[:24]


# ------------------------------------------------------------------------------------------
# JSON encoding of weights etc. in workloads: ints stay ints, fractions are "a/b" strings.


def num(x):
    from fractions import Fraction

    if isinstance(x, str):
        return Fraction(x)
    return x


def jdump(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


def install_repo_path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
