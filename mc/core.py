"""Shared machinery of the bounded-exhaustive checks.

A property module explores a finite, explicitly enumerated space of behaviours
(input words, operation sequences, schedules, crash points) and for every one of
them compares the real code in /repo with a reference model written here.

`Ctx` counts what was really explored:
  states       distinct canonical reference-model states / configurations reached
  transitions  model steps taken (one per sample, operation, scheduling decision)
  traces       complete behaviours that were run on the real code and compared
"""
import itertools
import json
import math
import os
import sys
import traceback

import numpy as np


class Stop(Exception):
    """raised when enough violations were collected"""


def enc(x, depth=0):
    """Make something JSON-able for replay files and samples."""
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return enc(float(x))
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "dtype": str(x.dtype), "head": enc(x.ravel()[:50].tolist(), depth + 1)}
        return enc(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): enc(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [enc(v, depth + 1) for v in list(x)[:400]]
    return repr(x)[:500]


class Ctx:
    MAX_VIOL = 3

    def __init__(self, prop, tier, seed, mode, shard, nshards, known):
        self.prop, self.tier, self.seed, self.mode = prop, tier, seed, mode
        self.shard, self.nshards = shard, nshards
        self.thorough = tier == "thorough"
        self.jit = mode == "jit"
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.families = {}
        self.samples = []
        self.violations = []
        self.known = {k["key"]: k for k in known}
        self.known_seen = {}
        self.outcomes = set()
        self.fam = "main"
        self._n = 0
        self.only_family = os.environ.get("VERIF_ONLY_FAMILY")

    # -- bookkeeping ------------------------------------------------------
    def family(self, name):
        """Start a family; returns False if this run should skip it."""
        self.fam = name
        if self.only_family and self.only_family != name:
            return False
        self.families.setdefault(name, {"traces": 0, "transitions": 0})
        return True

    def mine(self):
        """Round-robin sharding of an enumeration over worker processes."""
        self._n += 1
        return self._n % self.nshards == self.shard

    def shard_list(self, seq):
        return [x for i, x in enumerate(seq) if i % self.nshards == self.shard]

    def state(self, key):
        self._states.add(hash((self.fam, key)))

    def step(self, n=1):
        self.transitions += n
        self.families[self.fam]["transitions"] += n

    def trace(self, n=1, outcome=None):
        self.traces += n
        self.families[self.fam]["traces"] += n
        if outcome is not None and len(self.outcomes) < 200000:
            self.outcomes.add(hash((self.fam, outcome)))

    def sample(self, s):
        mine = [x for x in self.samples if x["family"] == self.fam]
        if len(mine) < 2 and len(self.samples) < 30:
            self.samples.append({"family": self.fam, "case": enc(s)})

    # -- verdicts ---------------------------------------------------------
    def fail(self, msg, case=None, known_key=None):
        if known_key is not None and known_key in self.known:
            self.known_seen.setdefault(known_key, 0)
            self.known_seen[known_key] += 1
            return
        self.violations.append(
            {"family": self.fam, "mode": self.mode, "message": msg, "case": enc(case)}
        )
        if len(self.violations) >= self.MAX_VIOL:
            raise Stop()

    def call(self, case, fn, *a, **k):
        """Run real code; an unexpected exception is a violation."""
        try:
            return True, fn(*a, **k)
        except Stop:
            raise
        except Exception as e:  # noqa
            self.fail(
                "unexpected %s: %s | %s"
                % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:]),
                case,
            )
            return False, None

    def rejects(self, case, fn, *a, **k):
        """The real code has to refuse this call (any exception type)."""
        try:
            r = fn(*a, **k)
        except Exception:
            return True
        self.fail("call was accepted but has to be rejected, returned %s" % (repr(r)[:200],), case)
        return False

    def eq(self, what, got, want, case, rtol=1e-9, atol=1e-9):
        """NaN-aware comparison with shape check."""
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:
            self.fail("%s: result not numeric (%s): %r" % (what, e, got), case)
            return False
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail("%s: shape %s, expected %s" % (what, g.shape, w.shape), case)
            return False
        if not close(g, w, rtol, atol):
            bad = np.argwhere(~elem_close(g, w, rtol, atol))
            i = tuple(bad[0]) if len(bad) else ()
            self.fail(
                "%s: got %r, expected %r at index %s (%d of %d values differ)"
                % (what, float(g[i]), float(w[i]), [int(v) for v in i], len(bad), g.size),
                {"case": case, "got": got, "want": want},
            )
            return False
        return True

    def result(self):
        return {
            "transitions": self.transitions,
            "traces": self.traces,
            "families": self.families,
            "samples": self.samples,
            "violations": self.violations,
            "known_seen": self.known_seen,
            "states": sorted(self._states),
            "outcomes": len(self.outcomes),
        }


def elem_close(g, w, rtol=1e-9, atol=1e-9):
    with np.errstate(invalid="ignore"):
        return (g == w) | (np.isnan(g) & np.isnan(w)) | (
            np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= atol + rtol * np.abs(w))
        )


def close(g, w, rtol=1e-9, atol=1e-9):
    return bool(np.all(elem_close(np.asarray(g, float), np.asarray(w, float), rtol, atol)))


def words(alphabet, length):
    return itertools.product(alphabet, repeat=length)


def run_words(states, lengths, depth):
    """All run-length encoded state sequences: every sequence of `depth` runs of differing states."""
    for st in itertools.product(states, repeat=depth):
        if any(nan_eq(a, b) for a, b in zip(st, st[1:])):
            continue
        for ln in itertools.product(lengths, repeat=depth):
            yield tuple(zip(st, ln))


def expand(runs):
    return np.array([s for s, n in runs for _ in range(n)], float)


def nan_eq(a, b):
    return (a == b) or (a != a and b != b)


nan = float("nan")
isnan = math.isnan
