"""C25: parameter fitting minimises the documented error; timers and progress reports add up."""
import contextlib
import io
import re
import time

import numpy as np
from scipy.optimize import leastsq

from vlib import gen
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random band models with 1-5 parameters (on-site and hopping energies of random cells), references from the "
        "same model and from others, weights as floats, integers, with signs and zeros, good and wrong lengths; "
        "random sequences of timer and progress calls. Non-trivial: more than one parameter or slot. Oracle: the "
        "weighted differences recomputed, the reference parameters recovered, the error never above the start and "
        "stationary; measured intervals bracketed by our own clock.")
REQUIRED = ["errors", "weighted", "integer_weights", "recovered", "stationary", "rejections", "timers", "totals",
            "progress", "failed_fits"]


def model(rng):
    """bands(params): every parameter enters the Hamiltonian linearly and visibly."""
    n = int(rng.integers(1, 4))
    npar = int(rng.integers(1, 6) if rng.random() < 0.9 else rng.integers(6, 9))
    lat = gen.lattice(rng, two_d=True)
    slots = [("e", i) for i in range(n)]
    for _ in range(6):
        r = gen.rn(rng, 1, 2)
        i, j = (int(x) for x in rng.integers(n, size=2))
        if r == (0, 0, 0) and i == j:
            continue
        t = ("h", r, i, j)
        back = ("h", tuple(-x for x in r), j, i)
        if t not in slots and back not in slots:
            slots.append(t)
    pos = rng.uniform(0, 1, (n, 3))
    rng.shuffle(slots)
    slots = slots[:npar]
    if not [s for s in slots if s[0] == "h"]:
        slots = [s for s in slots if s[1] > 0] + [("h", (1, 0, 0), 0, 0)]
    energies = {s[1] for s in slots if s[0] == "e"}

    def bands(k, par):
        cell = tb.PrimitiveCell(lat, unit=tb.ANG)
        val = dict(zip(slots, par))
        for i in range(n):
            cell.add_orbital(pos[i], energy=float(val[("e", i)]) if i in energies else 4.0 * i)
        for s, v in val.items():
            if s[0] == "h":
                cell.add_hopping(s[1], s[2], s[3], float(v))
        return cell.calc_bands(k)[1]
    return slots, n, bands


def w_fit(rng, obs):
    slots, n, bands = model(rng)
    npar = len(slots)
    k = rng.uniform(-0.5, 0.5, (int(rng.integers(3, 9)) + npar, 3))
    true = np.array([8.0 * s[1] + 1.0 * rng.uniform(-1, 1) if s[0] == "e" else rng.uniform(0.4, 1.2) for s in slots])
    own = rng.random() < 0.7
    refb = bands(k, true)
    if not own:
        refb = np.sort(refb + rng.uniform(-0.3, 0.3, refb.shape), axis=1)
    kref = k.copy()

    class Fit(tb.ParamFit):
        def calc_bands_ref(self):
            return refb.copy()

        def calc_bands_fit(self, params):
            key = tuple(np.asarray(params, dtype=float))
            if key not in memo:         # a user may keep the bands of a model
                memo[key] = bands(k, params)
            return memo[key]
    memo = {}
    style = str(rng.choice(["none", "float", "int", "sign", "zero"]))
    w = None
    if style == "float":
        w = rng.uniform(0.2, 3, n)
    elif style == "int":
        w = rng.integers(1, 6, n)
        obs.ev("integer_weights")
    elif style == "sign":
        w = rng.uniform(0.2, 3, n) * rng.choice([-1, 1], n)
    elif style == "zero":
        w = rng.uniform(0.2, 3, n)
        w[int(rng.integers(n))] = 0.0
        if not w.any():
            w = None
            style = "none"
    obs.note(npar=npar, n=n, style=style, own=own)
    obs.hard(npar > 1)
    wc = None if w is None else w.copy()
    obs.raises(ValueError, lambda: Fit(k, np.ones(n + int(rng.choice([1, 2, -1] if n > 1 else [1, 2])))), "wrong number of weights")
    fit = Fit(k, w)
    if w is not None:
        obs.check(np.array_equal(w, wc) and w.dtype == wc.dtype, "the given weights were changed")
    p = true + rng.uniform(-0.5, 0.5, npar)
    diff = refb - bands(k, p)
    err = np.asarray(fit.estimate_error(p))
    obs.check(err.shape == (diff.size,), f"error vector of shape {err.shape}")
    err = err.reshape(diff.shape)
    ww = np.ones(n) if w is None else np.abs(wc).astype(float)
    want = diff * ww
    # the overall factor of the weights is free, their ratios are not
    if np.max(np.abs(want)) < 1e-9:
        obs.check(np.max(np.abs(err)) < 1e-8, "error of equal bands")
        return
    s = np.sum(want * err) / max(np.sum(want * want), 1e-300)
    obs.check(s > 0, "sign of the error")
    obs.close(err / s, want, "weighted differences of the bands", tol=1e-8, event="errors")
    obs.ev("weighted")
    obs.close(np.asarray(fit.estimate_error(p)).reshape(diff.shape), err, "error of a repeated call", tol=1e-12)
    def jacobian(x):
        return np.array([(fit.estimate_error(x + h) - fit.estimate_error(x - h)) / 2e-6
                         for h in np.eye(npar) * 1e-6]).T
    sv0 = np.linalg.svd(jacobian(true), compute_uv=False)
    gap0 = np.min(np.diff(refb, axis=1)) if n > 1 else 1.0
    easy = own and gap0 > 0.2 and sv0[-1] > 0.05 * sv0[0] > 0
    p0 = true + rng.uniform(-0.02, 0.02, npar) if own else p
    keep = p0.copy()
    if rng.random() < 0.3:          # out of evaluations: no result
        n_max = int(rng.integers(1, 3))
        status = leastsq(fit.estimate_error, p0.copy(), maxfev=n_max)[1]
        if status not in (1, 2, 3, 4):
            obs.raises(RuntimeError, lambda: fit.fit(p0, maxfev=n_max), f"fit with status {status}",
                       event="failed_fits")
    try:
        got = np.atleast_1d(fit.fit(p0))
    except RuntimeError:
        obs.check(not easy, "fit next to the exact solution failed")
        return
    obs.check(np.array_equal(p0, keep), "the initial parameters were changed")
    obs.check(got.shape == (npar,), "number of fitted parameters")
    e0 = np.linalg.norm(fit.estimate_error(p0))
    e1 = np.linalg.norm(fit.estimate_error(got))
    obs.check(e1 <= e0 * (1 + 1e-6) + 1e-12, f"the fit is worse than the start: {e1} > {e0}")
    jac = jacobian(got)
    sv = np.linalg.svd(jac, compute_uv=False)
    if easy:
        obs.close(got, true, "parameters of the reference", tol=1e-4, event="recovered")
    r = fit.estimate_error(got)
    # one more step of least squares must not gain much
    gap = np.min(np.diff(bands(k, got), axis=1)) if n > 1 else 1.0
    if gap > 0.05 and sv[-1] > 0.02 * sv[0]:
        g = np.linalg.norm(jac.T @ r)
        obs.check(g <= 1e-3 * sv[0] * max(e0, 1e-9) + 1e-6, f"the fit stopped where the error still falls (gradient {g})")
        obs.ev("stationary")


def w_timer(rng, obs):
    timer = tb.Timer()
    names = [f"slot{i}" * int(rng.integers(1, 3)) for i in range(int(rng.integers(1, 4)))]
    obs.hard(len(names) > 1)
    obs.note(n=len(names))
    started, last, total, low, t0 = {}, {}, {}, {}, {}

    def report(func, data):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            func()
        got = {m[0].strip(): float(m[1]) for m in re.findall(r"^\s*(\S.*?)\s*:\s*([0-9.]+)\s*$", buf.getvalue(), re.M)}
        obs.check(set(got) == set(data), f"slots reported {sorted(got)} != {sorted(data)}")
        for s, (a, b) in data.items():
            obs.check(a - 2e-5 <= got[s] <= b + 2e-5, f"slot {s}: {got[s]} not in [{a}, {b}]")
    seen = []
    for _ in range(int(rng.integers(4, 16))):
        s = str(rng.choice(names))
        act = rng.random()
        if act < 0.45:
            a = time.time()
            timer.tic(s)
            started[s] = (a, time.time())
            if s not in seen:
                seen.append(s)
        elif act < 0.85:
            if s in started:
                time.sleep(float(rng.choice([0, 0.001, 0.003])))
                b0 = time.time()
                timer.toc(s)
                b1 = time.time()
                a0, a1 = started.pop(s)
                last[s] = (b0 - a1, b1 - a0)
                total[s] = tuple(np.add(total.get(s, (0, 0)), last[s]))
            else:
                obs.raises(RuntimeError, lambda: timer.toc(s), "toc without tic")
        elif act < 0.93:
            if started:
                with contextlib.redirect_stdout(io.StringIO()):
                    obs.raises(RuntimeError, timer.report_time, "report while running")
                    obs.raises(RuntimeError, timer.report_total_time, "report while running")
            else:
                report(timer.report_time, last)
                report(timer.report_total_time, total)
                obs.ev("totals", len(total))
        elif act < 0.96:
            timer.reset()
            started, last, total, seen = {}, {}, {}, []
    if not started:
        report(timer.report_time, last)
        report(timer.report_total_time, total)
        obs.ev("totals", len(total))
    obs.ev("timers")


def w_progress(rng, obs):
    n, m = int(rng.integers(1, 200)), int(rng.integers(1, 15))
    bar = tb.ProgressBar(n, m) if m != 10 else tb.ProgressBar(n)
    obs.note(n=n, m=m)
    obs.hard(n > m)
    counts = []
    for i in range(1, n + 1):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            bar.count()
        for a, b, c in re.findall(r"finished\s+(\d+) of\s+(\d+) \(\s*([0-9.]+)%\)", buf.getvalue()):
            obs.check(int(a) == i and int(b) == n, f"reported {a} of {b} after {i} of {n}")
            obs.check(abs(float(c) - 100 * i / n) < 0.006, "percentage")
            counts.append(i)
    unit = max(1, n // m)
    want = list(range(unit, n + 1, unit))
    obs.check(counts == want, f"progress reported at {counts[:5]}..., expected {want[:5]}...")
    obs.ev("progress")


WORKLOADS = {"fit": W(w_fit, 80, 1500), "timer": W(w_timer, 60, 600), "progress": W(w_progress, 40, 400)}
