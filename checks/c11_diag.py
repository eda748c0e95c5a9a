"""C11: exact diagonalisation returns the spectrum of the model."""
import warnings

import numpy as np
import scipy.linalg as sla

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random primitive cells, samples and analytical models (also non-orthogonal, "
        "degenerate, rescaled, edited between calls), both conventions and solvers, random "
        "k-points, projections, broadenings. Non-trivial: at least two orbitals. Oracle: "
        "dense eigenvalues of the shadow Hamiltonian, residual and orthonormality of every "
        "eigenvector, projections summing to one, DOS recomputed by direct summation and its "
        "integral, path lengths from the shadow lattice.")
REQUIRED = ["windows", "bands", "residuals", "projections", "dos", "dos_norm", "arpack", "overlaps",
            "overlaps_sparse", "resized", "k_len", "defaults"]


def klen(lat, ks):
    b = 2 * np.pi * np.linalg.inv(lat).T
    d = np.linalg.norm(np.diff(ks @ b, axis=0), axis=1)
    return np.concatenate([[0.0], np.cumsum(d)])


def judge_states(obs, e, psi, h, s, what):
    """rows of psi: eigenvectors of (h, s)"""
    n = len(e)
    for b in range(n):
        v = psi[b]
        r = h @ v - e[b] * ((s @ v) if s is not None else v)
        obs.check(np.linalg.norm(r) < 1e-8 * max(1, np.max(np.abs(h))) * 10,
                  f"{what}: state {b} is no eigenstate (residual {np.linalg.norm(r):.2e})",
                  event="residuals")
    g = psi.conj() @ ((s if s is not None else np.eye(psi.shape[1])) @ psi.T)
    obs.close(g, np.eye(n), f"{what}: states not orthonormal", tol=1e-8, event="residuals")


def w_cell(rng, obs):
    lat = gen.lattice(rng)
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 9)), lat=lat)
    solver = tb.DiagSolver(pc, echo_details=False)
    for step in range(int(rng.integers(1, 4))):
        # also closed paths, points that repeat, and the points of the step before
        nk = int(rng.integers(1, 7))
        u = rng.random()
        if rng.random() < 0.04:
            nk, u = int(rng.integers(60, 300)), 0.0
        if step == 0 or u < 0.5:
            ks = np.array([gen.kpoint(rng) for _ in range(nk)])
            if nk > 1 and rng.random() < 0.5:
                ks[-1] = ks[0]
        elif u < 0.75:
            ks = ks[-1:]
        nk = len(ks)
        conv = int(rng.integers(1, 3)) if step == 0 or rng.random() < 0.5 else conv
        want = np.array([np.linalg.eigvalsh(rc.ham(k))[::-1] for k in ks])
        sel = None
        if rng.random() < 0.7:
            sel = sorted(set(int(x) for x in rng.integers(0, rc.n, int(rng.integers(1, rc.n + 1)))))
        res = solver.calc_bands(ks, convention=conv, orbital_indices=sel)
        obs.close(res.bands, want, "bands (highest first)", event="bands")
        obs.close(res.k_len, klen(rc.lat, ks), "length of the k-path", event="k_len")
        obs.check(np.all(np.diff(res.bands, axis=1) <= 1e-12), "bands not ordered")
        k2, b2 = pc.calc_bands(ks, echo_details=False, convention=conv)
        obs.close(b2, want, "bands from the cell itself", event="bands")
        obs.close(k2, klen(rc.lat, ks), "length of the k-path", event="k_len")
        e, psi = solver.calc_states(ks, convention=conv)
        for i, k in enumerate(ks):
            h = rc.ham(k, conv)
            obs.close(np.sort(e[i]), want[i][::-1], "energies of the states", event="bands")
            judge_states(obs, e[i], psi[i], h, None, f"k={k}")
        # projections: sums over groups of degenerate bands are well defined
        if sel is not None:
            for i, k in enumerate(ks):
                w, v = np.linalg.eigh(rc.ham(k, conv))
                w, v = w[::-1], v[:, ::-1]
                p = np.sum(np.abs(v[sel]) ** 2, axis=0)
                a = 0
                while a < rc.n:
                    b = a
                    while b + 1 < rc.n and abs(w[b + 1] - w[b]) < 1e-6:
                        b += 1
                    obs.close(np.sum(res.proj[i, a:b + 1]), np.sum(p[a:b + 1]),
                              f"projection on {sel} of bands {a}-{b}", tol=1e-7,
                              event="projections")
                    a = b + 1
                obs.check(np.all(res.proj[i] >= -1e-12) and np.all(res.proj[i] <= 1 + 1e-9),
                          "projection outside [0, 1]")
            full = solver.calc_bands(ks, orbital_indices=range(rc.n)).proj
            obs.close(full, np.ones_like(full), "projection on all orbitals", event="projections")
        judge_dos(rng, obs, solver, pc, ks, want, res.proj, sel, conv)
        # the model may change between calls
        if rng.random() < 0.6:
            if rng.random() < 0.5:
                p, en = tuple(rng.uniform(0, 1, 3)), gen.real(rng)
                pc.add_orbital(p, energy=en)
                rc.add_orb(p, en)
                pc.add_hopping((0, 0, 0), 0, rc.n - 1, 0.4)
                rc.add_hop((0, 0, 0), 0, rc.n - 1, 0.4)
                obs.ev("resized")
            elif rc.n > 1 and [k for k in rc.hop if rc.n - 1 not in k[1:]]:
                pc.remove_orbital(rc.n - 1)
                rc.remove_orbs([rc.n - 1])
                obs.ev("resized")
            else:
                en = gen.real(rng)
                pc.set_orbital(0, energy=en)
                rc.orbs[0][1] = en
    obs.note(orbitals=rc.n, nk=nk, conv=conv)
    obs.feed(want)
    obs.hard(rc.n > 1)


def judge_dos(rng, obs, solver, model, ks, bands, proj, sel, conv):
    sig = float(rng.uniform(0.02, 0.3))
    basis = str(rng.choice(["Gaussian", "Lorentzian"]))
    gs = int(rng.choice([1, 2]))
    lo, hi = float(bands.min()), float(bands.max())
    kw = dict(sigma=sig, basis=basis, g_s=gs)
    wide = rng.random() < 0.6
    if wide:
        pad = 12 * sig
        kw.update(e_min=lo - pad, e_max=hi + pad, e_step=sig / 4)
    else:
        kw.update(e_step=float(rng.uniform(0.01, 0.2)))
        # one limit or both may be given, zero included
        if rng.random() < 0.5:
            lim = [0.0, 0, float(rng.uniform(lo - 1, hi + 1))]
            if rng.random() < 0.7:
                kw["e_min"] = lim[rng.integers(3)]
            if rng.random() < 0.7:
                kw["e_max"] = lim[rng.integers(3)]
            if kw.get("e_max", hi) - kw.get("e_min", lo) < 0.2:
                kw.pop("e_max", None), kw.pop("e_min", None)
                if hi - lo < 0.2 or rng.random() < 0.5:
                    kw["e_max"] = hi + 1.0
            lo, hi = kw.get("e_min", lo), kw.get("e_max", hi)
    if sel is not None:
        kw.update(orbital_indices=sel)
    en, dos = solver.calc_dos(ks, convention=conv, **kw)
    if not wide and hi - lo > 0.2:
        obs.close([en[0], en[-1]], [lo, hi], "energy window", event="windows")
    obs.check(len(en) == len(dos), "lengths of energies and dos")
    w = (proj if sel is not None else np.ones_like(bands)).reshape(-1)
    x = en[:, None] - bands.reshape(-1)[None]
    if basis == "Gaussian":
        f = np.exp(-x * x / (2 * sig * sig)) / (sig * np.sqrt(2 * np.pi))
    else:
        f = sig / np.pi / (x * x + sig * sig)
    want = gs * (f @ w) / bands.size
    obs.close(dos, want, f"{basis} DOS", tol=1e-8, event="dos")
    if wide and basis == "Gaussian":
        obs.close(np.trapz(dos, en), gs * w.sum() / bands.size, "integral of the DOS",
                  tol=1e-4, event="dos_norm")
    obs.check(np.all(dos >= 0), "negative DOS")
    if sel is None:
        en2, dos2 = model.calc_dos(ks, echo_details=False, convention=conv, **kw)
        obs.close(dos2, want, "DOS from the model itself", tol=1e-8, event="dos")


def w_arpack(rng, obs):
    if rng.random() < 0.5:
        pc, rc = gen.cell_pair(rng, norb=int(rng.integers(12, 25)))
        model, ham, n = pc, rc.ham, rc.n
    else:
        model, rs, _, _ = gen.sample_pair(rng, max_orb=60)
        if rng.random() < 0.4:
            model.rescale_ham()
        ham, n = (lambda k: rs.ham(kfrac=k)), rs.n
        if n < 12:
            return
    ks = np.array([gen.kpoint(rng) for _ in range(2)])
    k = int(rng.integers(1, n // 2))
    which = str(rng.choice(["LM", "LA", "SA"]))
    solver = tb.DiagSolver(model, echo_details=False)
    res = solver.calc_bands(ks, solver="arpack", k=k, which=which, tol=1e-12)
    e, psi = solver.calc_states(ks, solver="arpack", k=k, which=which, tol=1e-12)
    dense = solver.calc_bands(ks)
    # the DOS counts the bands that were asked for
    sig = float(rng.uniform(0.05, 0.3))
    lo, hi = float(res.bands.min()), float(res.bands.max())
    en, dos = solver.calc_dos(ks, e_min=lo - 12 * sig, e_max=hi + 12 * sig, e_step=sig / 4,
                              sigma=sig, solver="arpack", k=k, which=which, tol=1e-12)
    obs.close(np.trapz(dos, en), 1.0, f"integral of the DOS of {k} of {n} bands", tol=1e-4,
              event="dos_norm")
    for i, q in enumerate(ks):
        w = np.linalg.eigvalsh(ham(q))
        obs.close(dense.bands[i], w[::-1], "dense spectrum", event="bands")
        # A Krylov solver may miss copies of a (nearly) degenerate eigenvalue: the selection
        # is only required to be complete when the spectrum is simple.
        mag = np.sort(np.abs(w)) if which == "LM" else w
        if np.min(np.diff(mag)) < 1e-3 * np.abs(w).max():
            d = np.abs(np.subtract.outer(res.bands[i], w)).min(axis=1)
            obs.close(d, np.zeros(k), "eigenvalues found by arpack", tol=1e-6 * max(1, np.abs(w).max()))
            obs.ev("arpack_degenerate")
        elif which == "LM":
            pick = w[np.argsort(-np.abs(w))[:k]]
            obs.close(np.sort(res.bands[i]), np.sort(pick), "largest eigenvalues", tol=1e-6,
                      event="arpack")
        else:
            pick = w[-k:] if which == "LA" else w[:k]
            obs.close(res.bands[i], pick[::-1], f"{which} eigenvalues", tol=1e-6, event="arpack")
        h = ham(q)
        for b in range(k):
            r = np.linalg.norm(h @ psi[i, b] - e[i, b] * psi[i, b])
            obs.check(r < 1e-6 * max(1, np.abs(w).max()), f"state {b}: residual {r:.1e}",
                      event="residuals")
    if rng.random() < 0.3:      # as many bands as by default, in all three
        nb = solver.calc_bands(ks, solver="arpack").bands.shape[1]
        e, psi = solver.calc_states(ks, solver="arpack")
        obs.check(e.shape == (2, nb) and psi.shape == (2, nb, n) and 0.5 * n <= nb < n,
                  f"{nb} bands, {e.shape} energies, {psi.shape} states of {n} orbitals")
        obs.check(np.isfinite(e).all() and np.abs(np.abs(psi) ** 2).sum() > 0.99 * 2 * nb,
                  "states by default")
    obs.raises(ValueError, lambda: solver.calc_bands(ks, solver="magma"), "unknown solver")
    obs.raises(ValueError, lambda: solver.calc_bands(ks, convention=3), "unknown convention")
    obs.raises(ValueError, lambda: solver.calc_states(ks, solver="magma"), "unknown solver")
    obs.raises(ValueError, lambda: solver.calc_states(ks, convention=0), "unknown convention")
    obs.raises(ValueError, lambda: solver.calc_dos(ks, solver="magma"), "unknown solver")
    obs.note(n=n, k=k, which=which)
    obs.hard()


def w_sample(rng, obs):
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=70)
    ks = np.array([gen.kpoint(rng) for _ in range(3)])
    solver = tb.DiagSolver(sm, echo_details=False)
    scaled = rng.random() < 0.5
    if scaled:
        sm.rescale_ham(float(rng.uniform(0.5, 20)) if rng.random() < 0.5 else None)
    want = np.array([np.linalg.eigvalsh(rs.ham(kfrac=k))[::-1] for k in ks])
    kl, b = sm.calc_bands(ks, echo_details=False)
    obs.close(b, want, "bands of the sample", event="bands")
    obs.close(kl, klen(rs.supers[0].sc_lat, ks), "length of the k-path", event="k_len")
    e, psi = solver.calc_states(ks)
    for i, k in enumerate(ks):
        judge_states(obs, e[i], psi[i], rs.ham(kfrac=k), None, "sample state")
    judge_dos(rng, obs, solver, sm, ks, want, None, None, 1)
    obs.note(n=rs.n, scaled=scaled)
    obs.feed(want)
    obs.hard()


def w_overlap(rng, obs):
    """Non-orthogonal orbitals: generalised eigenproblem."""
    n = int(rng.integers(1, 6))
    pc, rc = gen.cell_pair(rng, norb=n)
    ov = tb.Overlap(pc)
    so = ref.RefCell(rc.lat, rc.origin)
    for o in rc.orbs:
        so.add_orb(o[0], 1.0, o[2])
    budget = 0.9 / (2 * n)
    for _ in range(int(rng.integers(1, n + 2))):
        r, i, j = gen.rn(rng, 1), int(rng.integers(n)), int(rng.integers(n))
        if r == (0, 0, 0) and i == j:
            continue
        v = complex(*rng.uniform(-1, 1, 2)) * budget / 2
        ov.add_offsite(r, i, j, v)
        so.add_hop(r, i, j, v)
    if not so.hop:
        ov.add_offsite((1, 0, 0), 0, 0, 0.05)
        so.add_hop((1, 0, 0), 0, 0, 0.05)
    if rng.random() < 0.4:
        i, s = int(rng.integers(n)), float(rng.uniform(1, 2))
        ov.set_onsite(i, s)
        so.orbs[i][1] = s
    obs.close(ov.orb_pos_nm, rc.pos_nm(), "positions of the overlapping orbitals")
    ks = np.array([gen.kpoint(rng) for _ in range(3)])
    conv = int(rng.integers(1, 3))
    if rng.random() < 0.4:                     # terms edited after the solver was made, or used
        r, i, j = list(so.hop)[int(rng.integers(len(so.hop)))]
        a, old = int(rng.integers(n)), so.hop[(r, i, j)]
        ov.add_offsite(r, i, j, old / 3)
        ov.set_onsite(a, 2.2)
        solver = tb.DiagSolver(pc, overlap=ov, echo_details=False)
        if rng.random() < 0.5:
            solver.calc_bands(ks[:1])
        ov.add_offsite(r, i, j, old)
        ov.set_onsite(a, so.orbs[a][1])
        obs.ev("overlaps_edited")
    else:
        solver = tb.DiagSolver(pc, overlap=ov, echo_details=False)
        if rng.random() < 0.3:
            solver.calc_bands(ks[:1])
    res = solver.calc_bands(ks, convention=conv)
    e, psi = solver.calc_states(ks, convention=conv)
    for i, k in enumerate(ks):
        h, s = rc.ham(k, conv), so.ham(k, conv)
        if np.linalg.eigvalsh(s)[0] < 0.05:
            return
        w = sla.eigh(h, s, eigvals_only=True)
        obs.close(res.bands[i], w[::-1], "bands of non-orthogonal orbitals", tol=1e-7,
                  event="overlaps")
        judge_states(obs, e[i], psi[i], h, s, "non-orthogonal state")
        m = np.zeros((n, n), complex)
        ov.set_overlap_dense(k, m, conv)
        obs.close(m, s, "overlap matrix", event="overlaps")
        obs.close(ov.set_overlap_csr(k, conv).toarray(), s, "sparse overlap matrix",
                  event="overlaps")
    obs.note(n=n, terms=len(so.hop), conv=conv)
    obs.hard(n > 1)


def w_overlap_sparse(rng, obs):
    """Non-orthogonal orbitals with the sparse solver, which starts from random vectors: its
    result is judged whenever it does not report that it failed to converge."""
    n = int(rng.integers(24, 40))
    pc, rc = gen.cell_pair(rng, norb=n)
    ov = tb.Overlap(pc)
    so = ref.RefCell(rc.lat, rc.origin)
    for o in rc.orbs:
        so.add_orb(o[0], 1.0, o[2])
    for _ in range(int(rng.integers(2, n))):
        r, i, j = gen.rn(rng, 1), int(rng.integers(n)), int(rng.integers(n))
        if r == (0, 0, 0) and i == j:
            continue
        v = complex(*rng.uniform(-1, 1, 2)) * 0.1
        ov.add_offsite(r, i, j, v)
        so.add_hop(r, i, j, v)
    if not so.hop:
        return
    ks = np.array([gen.kpoint(rng) for _ in range(2)])
    conv, k = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    largest = bool(rng.random() < 0.5)
    kw = dict(convention=conv, solver="arpack", k=k, largest=largest, maxiter=2000, tol=1e-9)
    solver = tb.DiagSolver(pc, overlap=ov, echo_details=False)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        res = solver.calc_bands(ks, **kw)
        e, psi = solver.calc_states(ks, **kw)
    if seen:
        obs.ev("sparse_not_converged")
        return
    for i, q in enumerate(ks):
        h, s = rc.ham(q, conv), so.ham(q, conv)
        if np.linalg.eigvalsh(s)[0] < 0.05:
            return
        w = sla.eigh(h, s, eigvals_only=True)
        tol = 1e-6 * max(1, np.abs(w).max())
        obs.check(res.bands.shape == (2, k) and psi.shape == (2, k, n), "shape of the results")
        d = np.abs(np.subtract.outer(res.bands[i], w)).min(axis=1)
        obs.close(d, np.zeros(k), "eigenvalues found by the sparse solver", tol=tol,
                  event="overlaps_sparse")
        if np.min(np.diff(w)) > 1e-2 * np.abs(w).max():
            pick = w[-k:] if largest else w[:k]
            obs.close(np.sort(res.bands[i]), pick, "extreme eigenvalues", tol=tol,
                      event="overlaps_sparse")
        obs.check(np.all(np.diff(res.bands[i]) <= 1e-9), "bands not ordered")
        for b in range(k):
            r = np.linalg.norm(h @ psi[i, b] - e[i, b] * (s @ psi[i, b]))
            obs.check(r < 10 * tol, f"state {b}: residual {r:.1e}", event="overlaps_sparse")
        g = psi[i].conj() @ s @ psi[i].T
        obs.close(g, np.eye(k), "states not orthonormal", tol=1e-6, event="overlaps_sparse")
    obs.note(n=n, k=k, largest=largest)
    obs.hard()


def w_analytic(rng, obs):
    """Analytical models supplied by the user."""
    n = int(rng.integers(2, 5))
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    b = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    lat = gen.lattice(rng)

    def hk(k):
        m = a * np.exp(2j * np.pi * k[0]) + b * np.cos(2 * np.pi * k[1])
        return m + m.conj().T

    class Model(tb.FakePC):
        def set_ham_dense(self, k, ham, convention=1):
            ham[:] = hk(k)

    unit = float(rng.choice([tb.ANG, tb.NM, 0.0529177]))
    model = Model(n, lat, unit)
    obs.close(model.lat_vec, lat * unit, "lattice of an analytical model")
    obs.close(model.get_reciprocal_vectors(), 2 * np.pi * np.linalg.inv(lat * unit).T,
              "reciprocal lattice of an analytical model", tol=1e-9)
    ks = np.array([gen.kpoint(rng) for _ in range(4)])
    solver = tb.DiagSolver(model, echo_details=False)
    want = np.array([np.linalg.eigvalsh(hk(k))[::-1] for k in ks])
    res = solver.calc_bands(ks)
    obs.close(res.bands, want, "bands of an analytical model", event="bands")
    obs.close(res.k_len, klen(lat * unit, ks), "length of the k-path", event="k_len")
    e, psi = solver.calc_states(ks)
    for i, k in enumerate(ks):
        judge_states(obs, e[i], psi[i], hk(k), None, "analytical state")
    obs.note(n=n)
    obs.feed(want)
    obs.hard()


WORKLOADS = {"defaults": W(defaults.c11, 15, 150),
             "cell": W(w_cell, 200, 2500), "arpack": W(w_arpack, 80, 800),
             "sample": W(w_sample, 100, 1200), "overlap": W(w_overlap, 120, 1500),
             "analytic": W(w_analytic, 40, 400),
             "overlap_sparse": W(w_overlap_sparse, 12, 150)}
