"""C14: wave packets are propagated by exp(-iHt)."""
import numpy as np
from scipy import special

from vlib import defaults, gen, tbpmref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random samples with rescaled Hamiltonians (k-points, fields, own scaling factors), "
        "random initial states in several forms and norms, 1-300 steps, steps from 1e-10 to 30 "
        "times the default in both directions of time, time lists in any order, with "
        "duplicates, first and last step. "
        "Non-trivial: at least two different times beyond zero. Oracle: exp(-iHt) from "
        "dense diagonalisation; norms; row order; saved file; rejections.")
REQUIRED = ["frames", "norms", "rejected_time", "rejected_bessel", "tiny_step", "norm_monitor_ran",
            "last_step", "backward", "saved", "defaults", "reports", "vanishing_term"]


def w_psi(rng, obs):
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=70)
    if np.max(np.abs(rs.ham())) < 1e-6:
        return
    if rng.random() < 0.3:
        sm.set_k_point(gen.kpoint(rng))
    if rng.random() < 0.3:
        sm.set_magnetic_field(float(rng.uniform(-50, 50)), gauge=int(rng.integers(3)))
    sm.rescale_ham()
    if rng.random() < 0.3:
        sm.rescale_ham(sm.rescale * float(rng.uniform(1, 3)))
    ham = sm.build_ham_csr().toarray() * sm.rescale
    ex = tbpmref.Exact(ham)
    n = rs.n
    style = int(rng.integers(4))
    if style == 0:
        psi = np.zeros(n)
        psi[int(rng.integers(n))] = 1.0
    elif style == 1:
        psi = [int(x) for x in rng.integers(-3, 4, n)]
        psi[0] = psi[0] or 1
    else:
        psi = rng.normal(size=n) + 1j * rng.normal(size=n)
        psi *= 10.0 ** rng.integers(-6, 7)
    start = np.array(psi, complex)
    steps = int(rng.choice([1, 2, 3, int(rng.integers(4, 40)), int(rng.integers(40, 300))]))
    dt = float(rng.choice([1.0, 1.0, 0.5, 0.037, 2.0, 7.3, 30.0, 1e-3, 1e-6, 1e-8, 1e-10]))
    if rng.random() < 0.15:     # a term of the expansion vanishes long before the last one
        dt = float(rng.choice(special.jn_zeros(int(rng.integers(0, 5 if rng.random() < 0.7 else 60)), 4)) / np.pi)
        obs.ev("vanishing_term")
    if rng.random() < 0.2:
        dt = -dt
        obs.ev("backward")
    if abs(dt) < 1e-4:
        obs.ev("tiny_step")
    times = [int(x) for x in rng.integers(0, steps + 1, int(rng.integers(1, 8)))]
    if rng.random() < 0.05:     # every step
        times = list(range(steps + 1))
    if rng.random() < 0.5:
        times.append(steps)
        obs.ev("last_step")
    if rng.random() < 0.4:
        times.append(0)
    times = [times[i] for i in rng.permutation(len(times))]
    form = int(rng.integers(3))
    cfg = tb.Config()
    cfg.generic.update(nr_time_steps=steps)
    if rng.random() < 0.5:
        cfg.generic["wfn_check_steps"] = int(rng.integers(1, steps + 2))
    if cfg.generic["wfn_check_steps"] <= steps:
        obs.ev("norm_monitor_ran")
    step = 2 * np.pi / sm.energy_range * dt
    with tbpmref.Out() as d:
        s = tbpmref.solver(sm, cfg, d)
        arg = {0: times, 1: np.array(times), 2: tuple(times)}[form]
        keep = np.array(psi).copy()
        got = s.calc_psi_t(psi, arg, dt_scale=dt, save_data=True)
        obs.check(np.array_equal(np.array(psi), keep), "the initial state given by the user changed")
        want_t = sorted(set(times))
        ref = np.array([ex.u(step * t, start / np.linalg.norm(start)) for t in want_t])
        obs.close(got, ref, f"psi(t) at steps {want_t}, dt_scale={dt}",
                  tol=1e-12 * (100 + 30 * steps), event="frames")
        obs.close(np.linalg.norm(got, axis=1), np.ones(len(want_t)), "norm", tol=1e-9, event="norms")
        obs.close(np.load(f"{d}/x.psi_t.npy"), got, "saved psi_t", tol=0, event="saved")
        for bad in (-1, steps + 1, -steps - 1):
            if rng.random() < 0.5:
                obs.raises(ValueError, lambda: s.calc_psi_t(psi, times + [bad]),
                           f"time {bad} of {steps}", event="rejected_time")
        # too few terms
        need = int(np.pi * abs(dt))
        if need >= 3:
            cfg.generic["Bessel_max"] = int(rng.integers(1, need))
            obs.raises(ValueError, lambda: s.calc_psi_t(psi, times, dt_scale=dt),
                       f"Bessel_max={cfg.generic['Bessel_max']}, dt_scale={dt}",
                       event="rejected_bessel")
        if rng.random() < 0.2:      # also for long series
            top = int(rng.integers(100, 600))
            cfg.generic["Bessel_max"] = top
            far = (top + 2) / np.pi * float(rng.uniform(1, 1.5))
            obs.raises(ValueError, lambda: s.calc_psi_t(psi, times, dt_scale=far),
                       f"Bessel_max={top}, dt_scale={far}", event="rejected_bessel")
    obs.note(n=n, steps=steps, dt=dt, times=want_t, style=style)
    obs.hard(len(set(times) - {0}) > 1)


def w_precision(rng, obs):
    """The user's Bessel cut-off bounds the error, and few terms are no problem."""
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=30)
    if np.max(np.abs(rs.ham())) < 1e-6:
        return
    sm.rescale_ham()
    ex = tbpmref.Exact(rs.ham())
    eps = 10.0 ** float(rng.uniform(-13, -2))
    dt = 10.0 ** float(rng.uniform(-6, 0.5))
    steps = int(rng.integers(1, 12))
    cfg = tb.Config()
    cfg.generic.update(nr_time_steps=steps, Bessel_precision=eps, wfn_check_steps=10 ** 6)
    psi = rng.normal(size=rs.n) + 1j * rng.normal(size=rs.n)
    with tbpmref.Out() as d:
        s = tbpmref.solver(sm, cfg, d)
        if rng.random() < 0.4:      # the solver has worked with other settings before
            r = sm.rescale
            cfg.generic["Bessel_precision"] = 10.0 ** float(rng.uniform(-3, -1))
            if rng.random() < 0.5:
                sm.rescale_ham(r * 1.5)
            s.calc_psi_t(psi[::-1].copy(), range(steps + 1), dt_scale=dt)
            cfg.generic["Bessel_precision"] = eps
            sm.rescale_ham(r)
        got = s.calc_psi_t(psi, range(steps + 1), dt_scale=dt)
    ref = np.array([ex.u(2 * np.pi / sm.energy_range * dt * t, psi / np.linalg.norm(psi))
                    for t in range(steps + 1)])
    # dropped terms: 2*sum J_n beyond the cut-off, all below eps and falling fast
    obs.close(got, ref, f"psi(t), Bessel_precision={eps:.1e}, dt_scale={dt:.1e}",
              tol=steps * 8 * eps + 1e-11, event="precision")
    obs.note(eps=eps, dt=dt, steps=steps, n=rs.n)
    obs.hard(steps > 1)


WORKLOADS = {"defaults": W(defaults.c14, 15, 150),
             "psi": W(w_psi, 600, 8000), "precision": W(w_precision, 300, 4000)}
