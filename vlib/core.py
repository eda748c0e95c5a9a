"""Observation, verdicts and evidence.

A workload is a function ``w(rng, obs)`` that drives the real code for one case
and reports what it saw to ``obs``.  The runner gives every case its own PRNG
stream derived from (VERIF_SEED, workload, index), so that a case replays alone.
"""
import collections
import hashlib
import json
import traceback
import zlib

import numpy as np


class Violation(Exception):
    """The monitor saw the property broken."""
    def __init__(self, msg, mech=None):
        super().__init__(msg)
        self.mech = mech


class HarnessError(Exception):
    """The harness could not judge."""


class Obs:
    """What the monitors saw in one case."""
    def __init__(self):
        self.events = collections.Counter()
        self.fingerprint = hashlib.sha256()
        self.nontrivial = False
        self.desc = []
        self.findings = []      # several violations may be noted in one case

    # ---- events
    def ev(self, name, n=1):
        self.events[name] += n

    def note(self, **kw):
        """Describe the case: enters the fingerprint and the sample."""
        self.desc.append(kw)
        self.fingerprint.update(repr(sorted(kw.items(), key=lambda x: x[0])).encode())

    def feed(self, *arrays):
        for a in arrays:
            self.fingerprint.update(np.ascontiguousarray(a).tobytes())

    def hard(self, flag=True):
        """Mark the case as non-trivial."""
        self.nontrivial = self.nontrivial or bool(flag)

    # ---- oracles
    def check(self, cond, msg, mech=None, event="assertions"):
        self.ev(event)
        if not cond:
            raise Violation(msg() if callable(msg) else msg, mech)

    def close(self, got, want, msg, tol=1e-9, rel=None, mech=None,
              event="comparisons"):
        """max|got-want| <= tol*max(1, max|want|), shapes equal, all finite."""
        self.ev(event)
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape} != {want.shape}", mech)
        if got.size == 0:
            return 0.0
        if not np.all(np.isfinite(got)):
            raise Violation(f"{msg}: non-finite values", mech)
        scale = max(1.0, float(np.max(np.abs(want))))
        diff = np.abs(got - want)
        err = float(np.max(diff))
        if err > tol * scale:
            i = np.unravel_index(int(np.argmax(diff)), diff.shape) if diff.ndim else ()
            raise Violation(f"{msg}: |got-want|={err:.3e} at {tuple(map(int, i))}: "
                            f"got {got[i]!r} want {want[i]!r} (tol {tol:g}x{scale:.3g})",
                            mech)
        return err

    def raises(self, exc, func, msg, event="rejections"):
        """func must raise one of exc."""
        self.ev(event)
        try:
            func()
        except exc as e:
            try:
                str(e)
            except Exception as e2:
                raise Violation(f"{msg}: refused with an error that cannot be shown ({e2!r})")
            return
        except Exception as e:
            raise Violation(f"{msg}: raised {type(e).__name__}({e}) instead")
        raise Violation(f"{msg}: accepted")


def case_rng(seed, workload, index):
    return np.random.default_rng([seed & 0xffffffff, zlib.crc32(workload.encode()),
                                  index])


def run_case(func, seed, workload, index):
    """Run one case; return a JSON-able record."""
    obs = Obs()
    rec = {"workload": workload, "index": index, "viol": []}
    try:
        func(case_rng(seed, workload, index), obs)
    except Violation as e:
        rec["viol"].append({"msg": str(e), "mech": e.mech})
    except HarnessError as e:
        rec["harness_error"] = traceback.format_exc(limit=-8)
    except MemoryError:
        rec["harness_error"] = "MemoryError"
    except Exception as e:
        # The workloads only make legal calls outside obs.raises: an exception
        # from them is the code refusing legal input.
        rec["viol"].append({"msg": f"unexpected {type(e).__name__}: {e}\n"
                                   + traceback.format_exc(limit=-8),
                            "mech": None})
    rec["viol"] += obs.findings
    rec["events"] = dict(obs.events)
    rec["fp"] = obs.fingerprint.hexdigest()[:16]
    rec["nontrivial"] = obs.nontrivial
    rec["desc"] = json.loads(json.dumps(obs.desc, default=str))
    return rec
