"""C17: analysis of correlation functions equals the documented integrals."""
import math

import numpy as np

from vlib import defaults, gen, tbpmref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random correlation functions (arbitrary, and computed by the solver), built-in and "
        "user-defined windows, 1-40 time steps, dimensions 2 and 3, extended primitive cells, "
        "spin correction on and off. Non-trivial: more than 3 time steps. Oracle: direct "
        "vectorised evaluation of the documented sums; non-negativity, normalisation, "
        "linearity; rejections.")
REQUIRED = ["dos", "dos_norm", "ac", "dyn_pol", "epsilon", "epsilon_q0", "dc", "diff", "hall",
            "rejections", "inputs_kept", "spin", "extended", "window_values", "closed_limits", "defaults"]
EPS0 = 8.854187817e-12 / (1.602176634e-19) * 1e-9 * 4 * math.pi   # e/(V nm) in units of 4 pi


def my_window(name):
    if name == "hanning":
        return lambda i, n: 0.5 * (1 + np.cos(np.pi * i / n))
    if name == "exp":
        return lambda i, n: np.exp(-2 * (np.asarray(i) / n) ** 2)
    return lambda i, n: 10 ** (-2 * (np.asarray(i) / n) ** 2)


def pick_window(rng, obs):
    """(live callable or None for the default, reference)"""
    r = int(rng.integers(5))
    if r == 0:
        return None, None
    if r == 4:
        a, b = rng.uniform(0.2, 1.5, 2)
        f = lambda i, n: float(np.exp(-a * i / n) * (1 + b * i / n))
        return f, lambda i, n: np.exp(-a * np.asarray(i) / n) * (1 + b * np.asarray(i) / n)
    name = ["hanning", "exp", "exp_ten"][r - 1]
    live = {"hanning": tb.window_hanning, "exp": tb.window_exp, "exp_ten": tb.window_exp_ten}[name]
    n = int(rng.integers(1, 50))
    i = int(rng.integers(0, n + 1))
    obs.close(live(i, n), my_window(name)(i, n), f"window {name}({i}, {n})", tol=1e-13,
              event="window_values")
    return live, my_window(name)


def setup(rng, obs):
    ext = 1
    if rng.random() < 0.4:
        pc, rc = gen.small_cell(rng, norb=int(rng.integers(1, 3)), dims=2, connected=True)
        dim = (int(rng.integers(1, 3)), int(rng.integers(1, 3)), 1)
        ext = int(np.prod(dim))
        pc = tb.extend_prim_cell(pc, dim)
        sc = tb.SuperCell(pc, (3, 3, 1), (True, True, False))
        sm = tb.Sample(sc)
        lat, norb = rc.lat * np.array(dim)[:, None], rc.n * ext
        obs.ev("extended", ext > 1)
    else:
        sm, rs, _, _ = gen.sample_pair(rng, nsup=1, max_orb=60)
        lat, norb = rs.supers[0].cell.lat, rs.supers[0].cell.n
    sm.rescale_ham(float(rng.choice([rng.uniform(1, 12), 10 ** rng.uniform(-4, 1)])))
    cfg = tb.Config()
    tnr = int(rng.choice([1, 2, 3] + [int(x) for x in rng.integers(4, 40, 6)]))
    if rng.random() < 0.015:
        tnr = int(rng.integers(60, 160))
    spin = bool(rng.random() < 0.5)
    obs.ev("spin", spin)
    cfg.generic.update(nr_time_steps=tnr, correct_spin=spin, beta=float(10 ** rng.uniform(-1, 2)))
    dim = int(rng.integers(2, 4))
    size = np.linalg.norm(np.cross(lat[0], lat[1])) if dim == 2 else abs(np.linalg.det(lat))
    obs.feed(lat)
    obs.note(steps=tnr, dim=dim, spin=spin, ext=ext, norb=norb)
    obs.hard(tnr > 3)
    return sm, cfg, tnr, 2.0 if spin else 1.0, dim, size, norb, ext


def cplx(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def dos_ref(corr, win, er, tnr):
    e = -er / 2 + np.arange(2 * tnr) * er / (2 * tnr)
    m = np.arange(1, tnr + 1)
    tau = 2 * np.pi / er
    w = win(m - 1, tnr)
    full = corr[0] + (np.exp(1j * np.outer(e, m) * tau) @ (w * corr[1:]))
    m2 = m[:-1]
    full = full + np.exp(-1j * np.outer(e, m2) * tau) @ (w[:-1] * corr[1:-1].conj())
    d = np.abs(full)
    return e, d / (d.sum() * er / (2 * tnr))


def w_dos(rng, obs):
    sm, cfg, tnr, g, dim, size, norb, ext = setup(rng, obs)
    an = tb.Analyzer(sm, cfg, dimension=dim)
    corr = cplx(rng, tnr + 1)
    if rng.random() < 0.5:
        corr[0] = 1.0
    live, win = pick_window(rng, obs)
    kw = {} if live is None else {"window": live}
    win = win or my_window("hanning")
    f = an.calc_dos if rng.random() < 0.6 else an.calc_ldos
    keep = corr.copy()
    e, d = f(corr, **kw)
    obs.check(np.array_equal(keep, corr), "the correlation function changed", event="inputs_kept")
    we, wd = dos_ref(corr, win, sm.energy_range, tnr)
    obs.close(e, we, "energies", tol=1e-12)
    obs.close(d, g * wd, "DOS", tol=1e-10, event="dos")
    obs.check(np.all(d >= 0), "negative DOS", event="dos_norm")
    obs.close(np.sum(d) * sm.energy_range / (2 * tnr), g, "integral of the DOS", event="dos_norm")
    for bad in (0, 1, 4, -2):
        obs.raises(ValueError, lambda: tb.Analyzer(sm, cfg, dimension=bad), f"dimension {bad}")


def w_ac(rng, obs):
    sm, cfg, tnr, g, dim, size, norb, ext = setup(rng, obs)
    an = tb.Analyzer(sm, cfg, dimension=dim)
    beta, er = cfg.generic["beta"], sm.energy_range
    corr = cplx(rng, 4, tnr)
    live, win = pick_window(rng, obs)
    kw = {} if live is None else {"window": live}
    win = win or my_window("exp")
    om, ac = an.calc_ac_cond(corr, **kw)
    k = np.arange(tnr)
    wom = k * er / tnr
    tau = np.pi / er
    s = (2 * win(k + 1, tnr) * corr.imag) @ np.sin(np.outer(k * tau, wom))
    re = np.zeros((4, tnr))
    re[:, 1:] = norb / (size * ext) * tau * s[:, 1:] * (np.exp(-beta * wom[1:]) - 1) / wom[1:]
    im = np.zeros((4, tnr))
    for j in range(4):
        sig = np.zeros(2 * tnr)
        sig[tnr:] = re[j]
        sig[1:tnr] = re[j, 1:][::-1]
        ft = np.fft.fft(sig)
        h = np.zeros(2 * tnr)
        h[0] = h[tnr] = 1
        h[1:tnr] = 2
        im[j] = np.fft.ifft(ft * h).imag[tnr:]
    obs.close(om, wom, "frequencies", tol=1e-12)
    # exp(-x) - 1 of the smallest x loses digits
    tol = 1e-10 + 1e-14 / min(1.0, beta * er / tnr)
    obs.close(ac.real, g * re, "real part of the optical conductivity", tol=tol, event="ac")
    obs.close(ac.imag, g * im, "imaginary part of the optical conductivity", tol=tol, event="ac")
    c2 = cplx(rng, 4, tnr)
    lin = an.calc_ac_cond(2.5 * corr - c2, **kw)[1]
    obs.close(lin, 2.5 * ac - an.calc_ac_cond(c2, **kw)[1], "linearity of the optical conductivity",
              tol=1e-9)
    if dim == 3:
        cfg.dyn_pol["background_dielectric_constant"] = be = float(rng.uniform(1, 5))
        if tnr > 1:
            got = an.calc_epsilon_q0(om[1:], ac[:, 1:])
            want = 1 + 1j * 4 * np.pi / (be * EPS0) * (g * (re + 1j * im))[:, 1:] / wom[1:]
            obs.close(got, want, "dielectric function at q=0", tol=1e-7 + 10 * tol, event="epsilon_q0")
    else:
        obs.raises(ValueError, lambda: an.calc_epsilon_q0(om, ac), "epsilon(q=0) in two dimensions")


def w_dp(rng, obs):
    sm, cfg, tnr, g, dim, size, norb, ext = setup(rng, obs)
    nq = int(rng.integers(1, 4) if rng.random() < 0.95 else rng.integers(6, 20))
    qs = rng.uniform(-3, 3, (nq, 3))
    if rng.random() < 0.3:
        qs[0] = 0
    elif rng.random() < 0.4:        # close to the zone centre
        qs[0] *= float(10.0 ** rng.uniform(-5, -1))
    cc, be = float(rng.uniform(0.5, 3)), float(rng.uniform(1, 5))
    cfg.dyn_pol.update(q_points=[list(map(float, q)) for q in qs], coulomb_constant=cc,
                       background_dielectric_constant=be)
    an = tb.Analyzer(sm, cfg, dimension=dim)
    er = sm.energy_range
    corr = rng.normal(size=(nq, tnr))
    live, win = pick_window(rng, obs)
    kw = {} if live is None else {"window": live}
    win = win or my_window("exp_ten")
    q, om, dp = an.calc_dyn_pol(corr, **kw)
    k = np.arange(tnr)
    wom, tau = k * er / tnr, np.pi / er
    want = 2 * norb / (size * ext) * tau * ((win(k + 1, tnr) * corr)
                                            @ np.exp(1j * np.outer(k * tau, wom)))
    obs.close(q, qs, "q-points", tol=0)
    obs.close(om, wom, "frequencies", tol=1e-12)
    obs.close(dp, g * want, "dynamic polarization", tol=1e-10, event="dyn_pol")
    keep = dp.copy()
    eps = an.calc_epsilon(dp)
    obs.check(np.array_equal(dp, keep), "dyn_pol changed", event="inputs_kept")
    qn = np.linalg.norm(qs, axis=1)
    with np.errstate(divide="ignore"):
        vq = cc / (EPS0 * be) * (2 * np.pi / qn if dim == 2 else 4 * np.pi / qn ** 2)
    vq[qn == 0] = 0
    obs.close(eps, 1 - vq[:, None] * dp, "dielectric function", tol=1e-7, event="epsilon")


def w_dc(rng, obs):
    sm, cfg, tnr, g, dim, size, norb, ext = setup(rng, obs)
    er = sm.energy_range
    grid = -er / 2 + np.arange(2 * tnr) * er / (2 * tnr)
    lim = sorted(rng.uniform(-0.5, 0.5, 2) * er)
    if rng.random() < 0.4:      # limits that are points of the grid
        full = tb.Config()
        full.generic["nr_time_steps"], full.DC_conductivity["energy_limits"] = tnr, (-er, er)
        pts = tb.Analyzer(sm, full, dimension=dim).calc_dc_cond(np.zeros(tnr, complex), np.zeros((2, 2 * tnr, tnr), complex))[0]
        obs.close(pts, grid, "energies without limits", tol=1e-12)
        i = sorted(rng.integers(0, 2 * tnr, 2))
        lim, grid = [pts[i[0]], pts[i[1]]], pts
        obs.ev("closed_limits")
    elif np.min(np.abs(np.subtract.outer(grid, lim))) < 1e-9 * er:
        return
    cfg.DC_conductivity["energy_limits"] = (float(lim[0]), float(lim[1]))
    an = tb.Analyzer(sm, cfg, dimension=dim)
    sel = np.where((grid >= lim[0]) & (grid <= lim[1]))[0]
    cd = cplx(rng, tnr)
    cdc = cplx(rng, 2, 2 * tnr, tnr)
    l1, w1 = pick_window(rng, obs)
    l2, w2 = pick_window(rng, obs)
    kw = {}
    if l1 is not None:
        kw["window_dos"] = l1
    if l2 is not None:
        kw["window_dc"] = l2
    w1, w2 = w1 or my_window("hanning"), w2 or my_window("exp")
    keep = cd.copy(), cdc.copy()
    e, dc = an.calc_dc_cond(cd, cdc, **kw)
    dos = g * dos_ref(np.concatenate([[1.0], cd]), w1, er, tnr)[1]
    tau, k = 2 * np.pi / er, np.arange(tnr)
    integrand = w2(k + 1, tnr) * (np.exp(-1j * np.outer(grid[sel], k * tau))[None]
                                  * cdc[:, :len(sel)]).real
    want = g * norb / size * tau * dos[sel] * integrand.sum(-1)
    obs.close(e, grid[sel], "energies", tol=1e-12)
    obs.close(dc, want, "DC conductivity", tol=1e-10, event="dc")
    kw2 = {"window_dc": l2} if l2 is not None else {}
    t, diff = an.calc_diff_coeff(cdc, **kw2)
    acc = np.zeros_like(integrand)
    for i in range(1, tnr):
        acc[..., i] = acc[..., i-1] + 0.5 * tau * (integrand[..., i] + integrand[..., i-1])
    obs.close(t, k * tau, "times", tol=1e-12)
    obs.close(diff, acc, "diffusion coefficient", tol=1e-10, event="diff")
    obs.check(np.array_equal(keep[0], cd) and np.array_equal(keep[1], cdc),
              "a correlation function changed", event="inputs_kept")


def w_hall(rng, obs):
    sm, cfg, tnr, g, dim, size, norb, ext = setup(rng, obs)
    nk = int(rng.integers(1, 9) if rng.random() < 0.95 else rng.integers(20, 60))
    ne = int(rng.choice([2, 3, 8, int(rng.integers(10, 60) if rng.random() < 0.9 else rng.integers(100, 700))]))
    mus = [float(x) for x in rng.uniform(-0.7, 0.7, int(rng.integers(1, 5) if rng.random() < 0.95 else rng.integers(20, 80))) * sm.energy_range]
    cfg.dckb.update(n_kernel=nk, ne_integral=ne, energies=mus)
    an = tb.Analyzer(sm, cfg, dimension=dim)
    mu_mn = cplx(rng, nk, nk)
    keep = mu_mn.copy()
    unit = str(rng.choice(["h_bar", "h"]))
    e, cond = an.calc_hall_cond(mu_mn, unit=unit)
    th = np.arange(1, ne) * np.pi / ne
    x = np.cos(th)
    m = np.arange(nk)[:, None, None]
    n = np.arange(nk)[None, :, None]
    gam = ((x - 1j * n * np.sin(th)) * np.exp(1j * n * th) * np.cos(m * th)
           + (x + 1j * m * np.sin(th)) * np.exp(-1j * m * th) * np.cos(n * th))
    tr = (gam * mu_mn[:, :, None]).real.sum((0, 1))
    f = tbpmref.fermi(x[None] * sm.rescale, cfg.generic["beta"], np.array(mus)[:, None])
    # integral over E = cos(theta): dE / (1-E^2)^2 = dtheta / sin^3
    want = 16 / np.pi / sm.energy_range ** 2 * norb / size * (f * tr / np.sin(th) ** 3).sum(1) * np.pi / ne
    want = g * want * (2 * np.pi if unit == "h" else 1)
    obs.close(e, mus, "chemical potentials", tol=0)
    obs.close(cond, want, f"Hall conductivity ({unit})", tol=1e-9, event="hall")
    obs.check(np.array_equal(keep, mu_mn), "mu_mn changed", event="inputs_kept")
    obs.raises(ValueError, lambda: an.calc_hall_cond(mu_mn, unit="e"), "unknown unit")


WORKLOADS = {"defaults": W(defaults.c17, 15, 150),
             "dos": W(w_dos, 200, 3000), "ac": W(w_ac, 150, 2000), "dp": W(w_dp, 150, 2000),
             "dc": W(w_dc, 150, 2000), "hall": W(w_hall, 200, 3000)}
