"""C16: TBPM correlation functions equal their defining expressions."""
import numpy as np

from vlib import gen, tbpmref
from vlib.core import Violation
from vlib.gen import tb
from vlib.runner import W
from vlib.tbpmref import Exact, fermi

RULE = ("Random samples (vacancies, couplings, complex hoppings, k-points), seeds, 1-3 random "
        "samples, temperatures, chemical potentials inside and outside of the bands, time steps, energies, sites and "
        "kernels. The random states are measured through the public API with probe samples. "
        "Non-trivial: more than one random sample or more than 3 time steps. Oracle: the "
        "defining matrix expressions by dense diagonalisation on the measured states.")
REQUIRED = ["dos", "ldos", "ac", "dyn_pol", "dc", "hall", "quasi", "haydock", "several_samples",
            "mu_outside", "hot", "haydock_exhausted", "haydock_sites"]


def eng(r):
    return 0.0 if r.random() < 0.3 else float(r.choice([-1, 1])) * float(r.uniform(0.05, 3))


def setup(rng, max_orb=24, kpt=True):
    while True:
        sm, rs, _, _ = gen.sample_pair(rng, max_orb=max_orb, eng=eng, displaced=False)
        if rs.n >= 2 and np.max(np.abs(rs.ham())) > 1e-3:
            break
    kcart = None
    if kpt and rng.random() < 0.3:
        k = gen.kpoint(rng)
        sm.set_k_point(k)
        kcart = k @ (2 * np.pi * np.linalg.inv(rs.supers[0].sc_lat).T)
    sm.rescale_ham()
    if rng.random() < 0.3:
        sm.rescale_ham(sm.rescale * float(rng.uniform(1, 2)))
    ham = rs.ham(kcart=kcart)
    cfg = tb.Config()
    ns = int(rng.choice([1, 1, 2, 3])) if rng.random() < 0.97 else int(rng.integers(5, 14))
    tnr = int(rng.choice([1, 2, 3, 5, 9, int(rng.integers(10, 40) if rng.random() < 0.9 else rng.integers(60, 200))]))
    cfg.generic.update(seed=int(rng.choice([1, 2, 1337, int(rng.integers(1, 10 ** 6))])),
                       nr_random_samples=ns, nr_time_steps=tnr)
    if rng.random() < 0.3:
        cfg.generic["wfn_check_steps"] = int(rng.integers(1, tnr + 2))
    return sm, rs, kcart, ham, cfg, ns, tnr


def begin(rng, obs, **kw):
    sm, rs, kcart, ham, cfg, ns, tnr = setup(rng, **kw)
    if ns > 1:
        obs.ev("several_samples")
    obs.note(n=rs.n, samples=ns, steps=tnr, seed=cfg.generic["seed"], k=kcart is not None)
    obs.hard(ns > 1 or tnr > 3)
    return sm, rs, kcart, ham, cfg, ns, tnr


def states_of(rs, cfg, ns, d):
    return tbpmref.measure_states(rs.n, cfg.generic["seed"], ns, d)


def used(rng, sm, cfg, d, name, rescale=True):
    """A solver that may have done the same with other settings before."""
    s = tbpmref.solver(sm, cfg, d)
    if rng.random() < 0.3:
        keep, r = dict(cfg.generic), sm.rescale
        cfg.generic.update(beta=keep["beta"] * 1.7, mu=keep["mu"] + 0.1 * r, seed=keep["seed"] + 1,
                           Bessel_precision=1e-3, wfn_check_steps=10 ** 6,
                           nr_random_samples=int(rng.integers(1, 3)))
        if rescale:
            sm.rescale_ham(r * 1.25)
        getattr(s, name)()
        cfg.generic.update(keep)
        sm.rescale_ham(r)
    return s


def w_dos(rng, obs):
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs)
    ex = Exact(ham)
    tau = 2 * np.pi / sm.energy_range
    with tbpmref.Out() as d:
        ws = states_of(rs, cfg, ns, d)
        s = used(rng, sm, cfg, d, "calc_corr_dos")
        got = s.calc_corr_dos()
        want = np.mean([[np.vdot(w, ex.u(tau * t, w)) for t in range(tnr + 1)] for w in ws], axis=0)
        obs.close(got, want, "DOS correlation", tol=1e-9, event="dos")
        obs.check(np.max(np.abs(got)) <= 1 + 1e-9, "|C(t)| exceeds C(0)")
        obs.check(abs(got[0] - 1) < 1e-12, f"C(0)={got[0]}")
        sites = [int(x) for x in rng.permutation(rs.n)[:int(rng.integers(1, (min(5, rs.n) if rng.random() < 0.9 else rs.n) + 1))]]
        cfg.LDOS["site_indices"] = sites
        got = s.calc_corr_ldos()
        want = 0
        for w in ws:
            x = np.zeros(rs.n, complex)
            x[sites] = w[sites]
            x /= np.linalg.norm(x)
            want = want + np.array([np.vdot(x, ex.u(tau * t, x)) for t in range(tnr + 1)]) / ns
        obs.close(got, want, f"LDOS correlation of sites {sites}", tol=1e-9, event="ldos")


def thermal(rng, obs, sm, cfg):
    er = sm.energy_range
    r = rng.random()
    if r < 0.2:
        mu = float(rng.choice([-1, 1])) * er * float(rng.uniform(0.6, 1.5))
        obs.ev("mu_outside")
    else:
        mu = float(rng.uniform(-0.4, 0.4)) * er
    beta_re = float(10 ** rng.uniform(-1, 1.3))
    if rng.random() < 0.15:
        beta_re = float(10 ** rng.uniform(-14, -4))
        obs.ev("hot")
    cfg.generic.update(mu=mu, beta=beta_re / sm.rescale)
    if rng.random() < 0.3:
        cfg.generic["nr_Fermi_fft_steps"] = 2 ** 13
    m = cfg.generic["nr_Fermi_fft_steps"] / 2
    # kernel broadening of the polynomial expansion of the Fermi operator
    tol = 1e-9 + 6 * (np.pi / m) ** 2 * max(1.0, beta_re) ** 2
    return cfg.generic["beta"], mu, tol


def w_ac(rng, obs):
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs)
    beta, mu, tol = thermal(rng, obs, sm, cfg)
    ex, js = Exact(ham), tbpmref.currents(rs, kcart)
    tau = np.pi / sm.energy_range
    with tbpmref.Out() as d:
        ws = states_of(rs, cfg, ns, d)
        got = used(rng, sm, cfg, d, "calc_corr_ac_cond").calc_corr_ac_cond()
    want = np.zeros((4, tnr), complex)
    for w in ws:
        psi2 = ex.f(lambda e: fermi(e, beta, mu), w)
        psi1 = [ex.f(lambda e: 1 - fermi(e, beta, mu), j @ w) for j in js]
        for t in range(tnr):
            a = ex.u(tau * t, psi2)
            for c, (i1, i2) in enumerate([(0, 0), (0, 1), (1, 0), (1, 1)]):
                want[c, t] += np.vdot(a, js[i2] @ ex.u(tau * t, psi1[i1])) / ns
    scale = max(1e-3, np.linalg.norm(js[0], 2) ** 2, np.linalg.norm(js[1], 2) ** 2)
    obs.close(got / scale, want / scale, f"AC correlation (beta={beta:.3g}, mu={mu:.3g})",
              tol=tol, event="ac")


def w_dyn_pol(rng, obs):
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs)
    beta, mu, tol = thermal(rng, obs, sm, cfg)
    ex = Exact(ham)
    qs = [[float(x) for x in rng.uniform(-3, 3, 3)] for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < 0.2:
        qs[0] = [0.0, 0.0, 0.0]
    cfg.dyn_pol["q_points"] = qs if rng.random() < 0.7 else np.array(qs)
    tau = np.pi / sm.energy_range
    pos = rs.pos()
    with tbpmref.Out() as d:
        ws = states_of(rs, cfg, ns, d)
        got = used(rng, sm, cfg, d, "calc_corr_dyn_pol").calc_corr_dyn_pol()
    want = np.zeros((len(qs), tnr))
    for w in ws:
        psi2 = ex.f(lambda e: fermi(e, beta, mu), w)
        for iq, q in enumerate(qs):
            rho = np.exp(1j * pos @ np.array(q))
            psi1 = ex.f(lambda e: 1 - fermi(e, beta, mu), rho.conj() * w)
            for t in range(tnr):
                want[iq, t] += np.vdot(ex.u(tau * t, psi2), rho * ex.u(tau * t, psi1)).imag / ns
    obs.close(got, want, f"dynamic polarization correlation (beta={beta:.3g}, mu={mu:.3g})",
              tol=tol, event="dyn_pol")


def quasi(ex, w, e, tau, tnr):
    """sum_t W(t) exp(iEt) exp(-iHt) |w>, t = -T..T, normalised; |x| if ill conditioned"""
    k = np.arange(1, tnr + 1)
    win = 0.5 * (1 + np.cos(np.pi * k / tnr))
    x = ex.f(lambda en: 1 + 2 * (win[:, None] * np.cos(np.outer(k, tau * (e - en)))).sum(0), w)
    nrm = np.linalg.norm(x)
    return x / nrm, nrm


def w_quasi(rng, obs):
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs)
    ex = Exact(ham)
    tau = 2 * np.pi / sm.energy_range
    ens = [float(x) for x in rng.uniform(-0.5, 0.5, int(rng.integers(1, 5) if rng.random() < 0.95 else rng.integers(8, 40))) * sm.energy_range]
    ens[0] = float(ex.e[int(rng.integers(rs.n))])
    cfg.quasi_eigenstates["energies"] = ens
    with tbpmref.Out() as d:
        ws = states_of(rs, cfg, ns, d)
        got = used(rng, sm, cfg, d, "calc_quasi_eigenstates").calc_quasi_eigenstates()
    want, worst = np.zeros((len(ens), rs.n)), 1.0
    for w in ws:
        for i, e in enumerate(ens):
            x, nrm = quasi(ex, w, e, tau, tnr)
            want[i] += np.abs(x) ** 2 / ns
            worst = min(worst, nrm)
    if worst < 1e-4:
        return
    obs.close(got, want, "quasi-eigenstates", tol=1e-9 / worst, event="quasi")
    obs.close(got.sum(axis=1), np.ones(len(ens)), "norm of quasi-eigenstates", tol=1e-9)


def w_dc(rng, obs):
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs, max_orb=18)
    ex, js = Exact(ham), tbpmref.currents(rs, kcart)
    tau = 2 * np.pi / sm.energy_range
    er = sm.energy_range
    lim = sorted(float(x) for x in rng.uniform(-0.5, 0.5, 2) * er)
    grid = np.arange(2 * tnr) * 0.5 * er / tnr - er / 2
    if np.min(np.abs(np.subtract.outer(grid, lim))) < 1e-9 * er:
        return
    cfg.DC_conductivity["energy_limits"] = tuple(lim)
    sel = grid[(grid >= lim[0]) & (grid <= lim[1])]
    if len(sel) == 0:
        return
    with tbpmref.Out() as d:
        ws = states_of(rs, cfg, ns, d)
        dos, dc = used(rng, sm, cfg, d, "calc_corr_dc_cond", False).calc_corr_dc_cond()
    want_dos = np.mean([[np.vdot(w, ex.u(tau * t, w)) for t in range(1, tnr + 1)] for w in ws], axis=0)
    obs.close(dos, want_dos, "DOS correlation of DC run", tol=1e-9, event="dc")
    want = np.zeros((2, 2 * tnr, tnr), complex)
    for w in ws:
        for i, e in enumerate(sel):
            x, nrm = quasi(ex, w, e, tau, tnr)
            ov = abs(np.vdot(w, x))
            if ov < 1e-4 or nrm < 1e-4:
                return
            for c in (0, 1):
                ket = js[c] @ (x / ov)
                for t in range(tnr):
                    want[c, i, t] += np.vdot(ex.u(tau * t, js[c] @ w), ket) / ns
    obs.close(dc[:, :len(sel)], want[:, :len(sel)], "DC correlation", tol=1e-7, event="dc")


def w_hall(rng, obs):
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs)
    nk = int(rng.choice([2, 3, 4, 5, int(rng.integers(6, 30) if rng.random() < 0.95 else rng.integers(50, 140))]))
    direction = int(rng.integers(1, 3))
    cfg.dckb.update(n_kernel=nk, direction=direction)
    js = tbpmref.currents(rs, kcart)
    with tbpmref.Out() as d:
        ws = states_of(rs, cfg, ns, d)
        got = used(rng, sm, cfg, d, "calc_hall_mu").calc_hall_mu()
    ex = Exact(ham / sm.rescale)
    g = tbpmref.jackson(nk)
    cheb = [ex.v @ np.diag(np.cos(m * np.arccos(np.clip(ex.e, -1, 1)))) @ ex.v.conj().T
            for m in range(nk)]
    want = np.zeros((nk, nk), complex)
    jb = js[direction - 1]
    for w in ws:
        left = [t @ (js[0] @ w) for t in cheb]
        right = [jb @ (t @ w) for t in cheb]
        want += np.array([[np.vdot(a, b) for b in right] for a in left]) / ns
    want *= np.outer(g, g)
    scale = max(1e-3, np.linalg.norm(js[0], 2) * max(np.linalg.norm(jb, 2), 1e-3))
    obs.close(got / scale, want / scale, f"mu_mn, n_kernel={nk}, direction={direction}", tol=1e-9,
              event="hall")


def w_haydock(rng, obs):
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs, max_orb=20)
    site = int(rng.integers(rs.n))
    delta = float(10 ** rng.uniform(-2, 0))
    style = int(rng.integers(3))
    cfg.LDOS.update(site_indices=[site], delta=delta)
    ex = Exact(ham)
    en = np.arange(-tnr, tnr + 1) * 0.5 * sm.energy_range / tnr
    # Lanczos with full reorthogonalisation
    q = np.zeros(rs.n, complex)
    q[site] = 1
    qs, a, b = [q], [], []
    while True:
        z = ham @ qs[-1]
        a.append(np.vdot(qs[-1], z).real)
        for _ in range(3):
            for y in qs:
                z = z - np.vdot(y, z) * y
        nb = np.linalg.norm(z)
        if nb < 1e-9:
            break
        b.append(nb)
        qs.append(z / nb)
    full = len(a)
    if style == 0 and full > 1:
        depth = int(rng.integers(1, full))
    else:
        depth = full + int(rng.integers(0, 60))
        obs.ev("haydock_exhausted")
    cfg.LDOS["recursion_depth"] = depth
    m = min(depth, full)
    tri = np.diag(np.array(a[:m], complex)) + np.diag(b[:m-1], 1) + np.diag(b[:m-1], -1)
    te, tv = np.linalg.eigh(tri)
    want = (np.abs(tv[0]) ** 2 * delta / np.pi / ((en[:, None] - te) ** 2 + delta ** 2)).sum(1)
    if depth >= full:
        w2 = (np.abs(ex.v[site]) ** 2 * delta / np.pi
              / ((en[:, None] - ex.e) ** 2 + delta ** 2)).sum(1)
        if np.max(np.abs(w2 - want)) > 1e-6 * max(1, np.max(w2)):
            return                             # the oracle itself is ill conditioned here
        want = w2
    # the recursion as such loses orthogonality: once that shows there is no sharp answer
    q, p, pa, pb = qs[0], np.zeros(rs.n), [], [0.0]
    while len(pa) < depth:
        z = ham @ q
        pa.append(np.vdot(q, z).real)
        z = z - pa[-1] * q - pb[-1] * p
        pb.append(np.linalg.norm(z))
        if pb[-1] == 0:
            break
        q, p = z / pb[-1], q
    m = min(depth, full, len(pa))
    if np.any(np.abs(np.subtract(pb[1:m], b[:m-1])) > 1e-8) or (depth > full and len(pb) > full and pb[full] > 1e-8):
        obs.ev("haydock_not_sharp")
        return
    with tbpmref.Out() as d:
        ge, got = tbpmref.solver(sm, cfg, d).calc_ldos_haydock()
    obs.close(ge, en, "energies of Haydock LDOS")
    obs.close(got, want, f"Haydock LDOS of site {site}, depth {depth}, Krylov dimension {full}",
              tol=1e-5, event="haydock")


def recursion(ham, q, depth):
    """Coefficients of the recursion that starts from q, or None where rounding decides them."""
    out = []
    for full in (True, False):
        qs, a, b = [q], [], []
        while len(a) < depth:
            z = ham @ qs[-1]
            a.append(np.vdot(qs[-1], z).real)
            z = z - a[-1] * qs[-1] - (b[-1] * qs[-2] if b else 0)
            for y in (qs if full else []):
                z = z - np.vdot(y, z) * y
            b.append(np.linalg.norm(z))
            if b[-1] < 1e-6:
                return None
            qs.append(z / b[-1])
        out.append((np.array(a), np.array(b)))
    return out[0] if np.allclose(out[0], out[1], rtol=0, atol=1e-9) else None


def w_haydock_sites(rng, obs):
    """Several sites: random states on them, coefficients averaged over the samples."""
    sm, rs, kcart, ham, cfg, ns, tnr = begin(rng, obs, max_orb=20)
    if rs.n < 3:
        return
    sites = rng.choice(rs.n, int(rng.integers(2, min(5, rs.n) + 1)), replace=False)
    delta = float(10 ** rng.uniform(-1.5, 0))
    depth = int(rng.integers(1, 9))
    cfg.LDOS.update(site_indices=[int(x) for x in sites], delta=delta, recursion_depth=depth)
    with tbpmref.Out() as d:
        ws = tbpmref.measure_states(len(sites), cfg.generic["seed"], ns, d)
    co = []
    for w in ws:
        q = np.zeros(rs.n, complex)
        q[sites] = w / np.linalg.norm(w)
        co.append(recursion(ham, q, depth))
    if any(c is None for c in co):
        obs.ev("haydock_not_sharp")
        return
    a, b = np.mean([c[0] for c in co], axis=0), np.mean([c[1] for c in co], axis=0)
    en = np.arange(-tnr, tnr + 1) * 0.5 * sm.energy_range / tnr
    g = np.zeros(len(en), complex)
    for x, y in zip(a[::-1], b[::-1]):
        g = 1 / (en + 1j * delta - x - y ** 2 * g)
    with tbpmref.Out() as d:
        ge, got = tbpmref.solver(sm, cfg, d).calc_ldos_haydock()
    obs.close(ge, en, "energies of Haydock LDOS")
    obs.close(got, -g.imag / np.pi, f"Haydock LDOS of {len(sites)} sites, depth {depth}, {ns} samples", tol=1e-6,
              event="haydock_sites")


WORKLOADS = {"dos": W(w_dos, 120, 2000), "ac": W(w_ac, 150, 2000), "dyn_pol": W(w_dyn_pol, 150, 2000),
             "quasi": W(w_quasi, 120, 1500), "dc": W(w_dc, 120, 1500), "hall": W(w_hall, 120, 1500),
             "haydock": W(w_haydock, 200, 3000), "haydock_sites": W(w_haydock_sites, 60, 900)}
