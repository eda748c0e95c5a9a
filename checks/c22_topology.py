"""C22: topological phases and spin textures equal their definitions."""
import numpy as np
from scipy.optimize import linear_sum_assignment

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random gapped models of 1-6 orbitals (complex hoppings, orbitals anywhere in the cell, "
        "cells changed between calls), open and closed, forward and backward meshes, partial and "
        "full occupation, analytic Hamiltonians; Kane-Mele models on both sides of the "
        "transition; phase curves with windings and crossings; spin models in both orderings. "
        "Non-trivial: more than one occupied band or spin-mixing terms. Oracle: Wilson loops of "
        "the other Bloch convention with randomised gauges, -2 pi tau for full occupation, known "
        "invariants, expectation values from an independent diagonalisation.")
REQUIRED = ["loops", "full_occupation", "gauges", "analytic", "invariants", "nontrivial_z2", "counted",
            "tracks", "plain", "windings", "crossings", "spins", "degenerate_spins", "grids", "defaults"]
PAULI = dict(x=np.array([[0, 1], [1, 0]]), y=np.array([[0, -1j], [1j, 0]]), z=np.diag([1.0, -1]))


def unitary(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    return q


def wilson(rng, ham, tau, occ, ka, kb, kc):
    """Phases by the periodic convention with position phases; None if ill-posed."""
    vs = []
    for a in ka:
        e, v = np.linalg.eigh(ham((a, kb, kc)))
        if occ < len(e) and e[occ] - e[occ - 1] < 0.02:
            return None
        vs.append(v[:, :occ] @ unitary(rng, occ))
    w = np.eye(occ, dtype=complex)
    n = len(ka)
    end = ka[0] + (1.0 if ka[-1] >= ka[0] else -1.0)
    for i in range(n):
        k1, v1 = (ka[i + 1], vs[i + 1]) if i + 1 < n else (end, vs[0])
        w = w @ (vs[i].conj().T @ (np.exp(-2j * np.pi * (k1 - ka[i]) * tau)[:, None] * v1))
    z = np.linalg.eigvals(w)
    if np.min(np.abs(z)) < 1e-3:
        return None
    # well conditioned eigenvalues only
    s = np.linalg.svd(np.linalg.eig(w)[1], compute_uv=False)
    return None if s[-1] < 1e-3 else np.angle(z)


def same_phases(obs, got, want, what, tol=1e-6, event="loops"):
    obs.check(got.shape == want.shape, f"{what}: shape {got.shape}")
    obs.check(np.all(np.diff(got) >= 0) and np.all(np.abs(got) <= np.pi + 1e-12),
              f"{what}: not sorted in (-pi, pi]")
    d = np.abs(np.exp(1j * got)[:, None] - np.exp(1j * want)[None])
    i, j = linear_sum_assignment(d)
    obs.check(d[i, j].max() <= tol, f"{what}: {got} instead of {np.sort(want)}", event=event)


def mesh(rng):
    n = int(rng.integers(6, 25) if rng.random() < 0.95 else rng.integers(100, 250))
    u = int(rng.integers(4))
    a0 = float(rng.choice([-0.5, 0.0, rng.uniform(-1, 1)]))
    ka = np.linspace(a0, a0 + 1, n, endpoint=bool(u & 1))
    return ka[::-1].copy() if u & 2 else ka


def w_loops(rng, obs):
    kw = {}
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 7) if rng.random() < 0.95
                                         else rng.integers(8, 16)), rmax=1, pos_range=1.0, connected=True)
    occ = int(rng.integers(1, rc.n + 1))
    z2 = tb.Z2(pc, num_occ=occ, echo_details=False)
    seen = 0
    for step in range(2):
        if step == 0 or rng.random() < 0.5:     # or the same points once more
            ka = mesh(rng)
            kb = np.array([gen.kpoint(rng)[1] for _ in range(int(rng.integers(1, 4) if rng.random() < 0.95
                                                                      else rng.integers(10, 40)))])
            kc = float(rng.choice([0.0, 0.5, rng.uniform(-1, 1)]))
        tau = rc.pos()[:, 0]
        out, ph = z2.calc_phases(ka, kb, kc)
        obs.close(out, kb, "returned kb")
        obs.check(ph.shape == (len(kb), occ), f"phases {ph.shape}")
        for b, p in zip(kb, ph):
            if occ == rc.n:
                same_phases(obs, p, np.angle(np.exp((-1 if ka[-1] >= ka[0] else 1) * 2j * np.pi * tau)),
                            "phases of all bands", event="full_occupation")
                seen += 1
                continue
            want = wilson(rng, lambda k: rc.ham(k, 2), tau, occ, ka, b, kc)
            if want is None:
                obs.ev("skipped")
                continue
            obs.ev("gauges")
            same_phases(obs, p, want, f"phases at kb={b}, occupation {occ}")
            seen += 1
        # the model may change between two calls
        if step == 0:
            i = int(rng.integers(rc.n))
            e = gen.real(rng)
            pos = tuple(float(x) for x in rng.uniform(0, 1, 3))
            pc.set_orbital(i, position=pos, energy=e)
            rc.orbs[i][0], rc.orbs[i][1] = pos, e
    # all centres move with the crystal
    if occ == rc.n or wilson(rng, lambda k: rc.ham(k, 2), rc.pos()[:, 0], occ, ka, kb[0], kc) \
            is not None:
        p0 = z2.calc_phases(ka, kb[:1], kc)[1][0]
        d = float(rng.uniform(-1, 1))
        for i in range(rc.n):
            q = rc.orbs[i][0]
            pc.set_orbital(i, position=(q[0] + d, q[1], q[2]))
        p1 = z2.calc_phases(ka, kb[:1], kc)[1][0]
        s = -1 if ka[-1] >= ka[0] else 1
        same_phases(obs, p1, p0 + s * 2 * np.pi * d, "phases of the shifted crystal")
    for bad in (0, rc.n + 1, -1):
        obs.raises(ValueError, lambda: tb.Z2(pc, num_occ=bad, echo_details=False),
                   f"occupation {bad}")
    obs.note(n=rc.n, occ=occ, ka=len(ka), seen=seen)
    obs.feed(rc.pos(), np.array(list(rc.hop.values())))
    obs.hard(seen and occ > 1)


def w_analytic(rng, obs):
    """Analytic Hamiltonians are periodic and have no positions."""
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(2, 5)), rmax=1, connected=True)
    base = tb.FakePC

    class Model(base):
        def __init__(self):
            super().__init__(rc.n, rc.lat, tb.NM)

        def set_ham_dense(self, k_point, ham_dense, convention=1):
            ham_dense *= 0.0
            ham_dense += rc.ham(k_point, 2)
    m = Model()
    occ = int(rng.integers(1, rc.n))
    ka, kb = mesh(rng), rng.uniform(-1, 1, 2)
    ph = tb.Z2(m, num_occ=occ, echo_details=False).calc_phases(ka, kb, 0.25)[1]
    for b, p in zip(kb, ph):
        want = wilson(rng, lambda k: rc.ham(k, 2), np.zeros(rc.n), occ, ka, b, 0.25)
        if want is not None:
            same_phases(obs, p, want, "phases of an analytic model", event="analytic")
            obs.hard(occ > 1)
    obs.note(n=rc.n, occ=occ)
    obs.feed(np.array(list(rc.hop.values())))


def kane_mele(so, v, ra, spin_major=True, t=1.0):
    """PrimitiveCell and RefCell of the Kane-Mele model."""
    a = 2.46
    lat = np.array([[a, 0, 0], [a / 2, a * np.sqrt(3) / 2, 0], [0, 0, 10]])
    pc, rc = tb.PrimitiveCell(lat, unit=tb.ANG), ref.RefCell(lat * 0.1)
    ix = (lambda o, s: 2 * s + o) if spin_major else (lambda o, s: 2 * o + s)
    orb = {}
    for o, p, e in ((0, (0, 0, 0), v), (1, (1 / 3, 1 / 3, 0), -v)):
        for s in (0, 1):
            orb[ix(o, s)] = (p, e)
    for n in range(4):
        pc.add_orbital(orb[n][0], orb[n][1])
        rc.add_orb(*orb[n])

    def hop(r, i, j, e):
        pc.add_hopping(r, i, j, e)
        rc.add_hop(r, i, j, e)
    frac = {0: np.array([0, 0, 0.0]), 1: np.array([1 / 3, 1 / 3, 0])}
    for r in ((0, 0, 0), (-1, 0, 0), (0, -1, 0)):
        d = (frac[1] + r - frac[0]) @ lat
        d = d / np.linalg.norm(d)
        # i lambda_R (s x d)_z = i lambda_R (s_x d_y - s_y d_x)
        m = 1j * ra * (PAULI["x"] * d[1] - PAULI["y"] * d[0]) + t * np.eye(2)
        for s in (0, 1):
            for q in (0, 1):
                if m[s, q] != 0:
                    hop(r, ix(0, s), ix(1, q), m[s, q])
    if so:
        for o, sg in ((0, 1), (1, -1)):
            for r in ((1, 0, 0), (-1, 1, 0), (0, -1, 0)):
                for s, ss in ((0, 1), (1, -1)):
                    hop(r, ix(o, s), ix(o, s), 1j * so * sg * ss)
    return pc, rc


def z2_by_gaps(phases):
    """Soluyanov-Vanderbilt: follow the largest gap between the centres."""
    tot, z = 0, []
    for p in phases:
        p = np.sort(np.mod(p, 2 * np.pi))
        g = np.diff(np.append(p, p[0] + 2 * np.pi))
        n = int(np.argmax(g))
        z.append(np.mod(p[n] + g[n] / 2, 2 * np.pi))
    for i in range(len(z) - 1):
        for x in np.mod(phases[i + 1], 2 * np.pi):
            s = np.sin(z[i + 1] - z[i]) + np.sin(x - z[i + 1]) + np.sin(z[i] - x)
            tot += s < 0
    return tot % 2


def w_invariants(rng, obs):
    so = float(rng.uniform(0.05, 0.2)) * (1 if rng.random() < 0.5 else -1)
    crit = 3 * np.sqrt(3) * abs(so)
    topo = bool(rng.integers(2))
    v = float(rng.uniform(0, 0.6) * crit if topo else rng.uniform(1.6, 2.5) * crit)
    ra = float(rng.uniform(0, 0.3) * abs(so)) if topo else 0.0
    pc, rc = kane_mele(so, v, ra, bool(rng.integers(2)))
    kb = np.linspace(0.0, 0.5, 41)
    ka = np.linspace(-0.5, 0.5, 40)
    if rng.random() < 0.5:      # trivial bands far below must not matter
        for _ in range(2):
            p = tuple(float(x) for x in rng.uniform(0, 1, 3))
            for s in range(2):
                pc.add_orbital(p, -9.0)
        occ = 2 + 4
    else:
        occ = 2
    if rng.random() < 0.5:      # nor a filled second copy of the origin
        d = rng.uniform(-1, 1, 2)
        for i in range(pc.num_orb):
            q = pc.get_orbital(i).position
            pc.set_orbital(i, position=(q[0] + d[0], q[1] + d[1], 0.0))
    z = tb.Z2(pc, num_occ=occ, echo_details=False)
    _, ph = z.calc_phases(ka, kb, 0.0)
    # Kramers pairs at the two ends
    for p in (ph[0], ph[-1]):
        c = np.sort(np.angle(np.exp(1j * (p - p[0] - 1.0))))
        obs.close(c[0::2], c[1::2], "centres are not paired at a time-reversal invariant point",
                  tol=1e-5)
    got = z2_by_gaps(ph)
    obs.check(got == int(topo), f"Z2 = {got} for lambda_so={so}, lambda_v={v} (critical {crit}), "
              f"Rashba {ra}", event="invariants")
    if rng.random() < 0.4:      # the documented way, on a dense mesh of the plain model
        pc, rc = kane_mele(so, v, 0.0)
        z = tb.Z2(pc, num_occ=2, echo_details=False)
        _, ph = z.calc_phases(np.linspace(-0.5, 0.5, 40), np.linspace(0.0, 0.5, 150), 0.0)
        n = z.count_crossing(z.reorder_phases(ph), phase_ref=float(rng.uniform(0.2, 1.3)))
        obs.check(n % 2 == int(topo), f"{n} crossings for lambda_so={so}, lambda_v={v} "
                  f"(critical {crit})", event="counted")
    if topo:
        obs.ev("nontrivial_z2")
    obs.note(so=so, v=v, ra=ra, occ=occ)
    obs.hard(topo)


def w_tracks(rng, obs):
    """reorder_phases follows curves that stay apart; count_crossing counts."""
    thr = float(rng.choice([0.1, 0.1, 0.2]))
    nocc = int(rng.integers(1, 6))
    pc, _ = gen.cell_pair(rng, norb=max(nocc, 1), rmax=1)
    z2 = tb.Z2(pc, num_occ=nocc, echo_details=False)
    nk = int(rng.integers(20, 120))
    x = np.linspace(0, 1, nk)
    if rng.random() < 0.6:
        # common drift, offsets at least 2.5 thresholds apart also around the circle
        gaps = 2.5 * thr + rng.dirichlet(np.ones(nocc + 0)) * (2 * np.pi - 2.5 * thr * nocc) \
            if nocc > 1 else np.array([2 * np.pi])
        off = np.cumsum(gaps)[:nocc]
        slope = rng.uniform(-1, 1) * min(5.0, 0.3 * thr * (nk - 1))
        amp = 0.2 * thr
        curves = -np.pi + off[None, :] * 1.0 + slope * x[:, None] \
            + amp * np.sin(2 * np.pi * x[:, None] * 1.0 + rng.uniform(0, 6, nocc)[None]) * 0.5
        raw = np.sort(np.angle(np.exp(1j * curves)), axis=1)
        if np.min(np.abs(np.abs(raw) - np.pi)) < 1e-6:
            return
        jumps = np.abs(np.diff(raw, axis=0)).max() > 1
        keep = raw.copy()
        got = z2.reorder_phases(raw, threshold=thr)
        obs.check(np.array_equal(raw, keep), "reorder_phases changed its input")
        # same start, continuous, and at each point one of the curves
        start = np.argsort(np.angle(np.exp(1j * curves[0])))
        want = curves[:, start] + (raw[0] - curves[0, start])[None]
        obs.close(got, want, "reordered phases do not follow the curves", tol=1e-9, event="tracks")
        if jumps:
            obs.ev("windings")
        obs.hard(nocc > 1)
    else:
        # straight lines that cross; nothing leaves (-pi, pi)
        nk = int(rng.integers(60, 120))
        nocc = 2
        z2 = tb.Z2(gen.cell_pair(rng, norb=2, rmax=1)[0], num_occ=2, echo_details=False)
        t = np.arange(nk)
        s = rng.uniform(0.35, 0.45) * thr
        cross = int(rng.integers(10, nk - 10)) + float(rng.uniform(0.2, 0.8))
        y = np.stack([s * (t - cross), -s * rng.uniform(0.8, 1.0) * (t - cross)], axis=1)
        if np.abs(y).max() > 3:
            y = y[np.all(np.abs(y) < 3, axis=1)]
        got = z2.reorder_phases(np.sort(y, axis=1), threshold=thr)
        want = y if y[0, 0] < y[0, 1] else y[:, ::-1]
        obs.close(got, want, "crossing lines were not followed", event="tracks")
        obs.check(tb.Z2.count_crossing(got, phase_ref=0.0) == 2, "lines through zero")
        obs.ev("crossings")
        obs.hard()
    # without smoothing, curves without jumps are left alone, also where they touch
    thr = float(rng.uniform(0.03, 0.5))
    m, nk = int(rng.integers(1, 5)), int(rng.integers(2, 40))
    z2 = tb.Z2(gen.cell_pair(rng, norb=m, rmax=1)[0], num_occ=m, echo_details=False)
    y = np.cumsum(rng.uniform(-0.9, 0.9, (nk, m)) * min(thr, 0.05), axis=0) \
        + rng.uniform(-1, 1, (1, m)) * (thr if rng.random() < 0.5 else 1.0)
    y = np.sort(np.clip(y, -3, 3), axis=1)
    if np.abs(np.diff(y, axis=0)).max() < 0.95 * thr:
        keep = y.copy()
        obs.close(z2.reorder_phases(y, threshold=thr, smooth=False), keep,
                  "curves without jumps were changed without smoothing", tol=0, event="plain")
        obs.check(np.array_equal(y, keep), "reorder_phases changed its input")
    # two parallel curves that swap places in the data, whatever the threshold
    thr = float(rng.choice([0.01, 0.05, 0.1, 0.3, 0.8]))
    z2 = tb.Z2(gen.cell_pair(rng, norb=2, rmax=1)[0], num_occ=2, echo_details=False)
    t = np.arange(nk) * thr * float(rng.uniform(-0.2, 0.2)) * min(1, 1.5 / (thr * nk))
    want = np.stack([t, t + thr * float(rng.uniform(2.5, 4))], axis=1) - 1.0
    raw = want.copy()
    for b in range(1, nk):
        if rng.random() < 0.5:
            raw[b] = raw[b, ::-1]
    keep = raw.copy()
    obs.close(z2.reorder_phases(raw, threshold=thr, smooth=False), want,
              f"swapped curves, threshold {thr}, no smoothing", tol=1e-12, event="plain")
    obs.check(np.array_equal(raw, keep), "reorder_phases changed its input")
    # counting
    p = rng.uniform(-np.pi, np.pi, (int(rng.integers(1, 30)), int(rng.integers(1, 6))))
    for r in (0.5, float(rng.uniform(-3, 3))):
        above = p > r
        want = int(np.sum(above[1:] != above[:-1]))
        n = tb.Z2.count_crossing(p) if r == 0.5 else tb.Z2.count_crossing(p, phase_ref=r)
        obs.check(n == want, f"{n} crossings of {r}, want {want}", event="crossings")
    obs.note(thr=thr, nocc=nocc, nk=nk)
    obs.feed(p)


def w_spin(rng, obs):
    n = int(rng.integers(1, 4))
    major = bool(rng.integers(2))
    sym = rng.random() < 0.3    # spin-degenerate bands
    if rng.random() < 0.3:
        n = 2
        pc, rc = kane_mele(float(rng.uniform(0, 0.2)), float(rng.uniform(0, 0.5)),
                           0.0 if sym else float(rng.uniform(0.05, 0.3)), major)
    else:
        ix = (lambda o, s: s * n + o) if major else (lambda o, s: 2 * o + s)
        lat = gen.lattice(rng)
        pc, rc = tb.PrimitiveCell(lat, unit=tb.ANG), ref.RefCell(lat * 0.1)
        p = rng.uniform(0, 1, (n, 3))
        e = [gen.real(rng) for _ in range(n)]
        b = 0.0 if sym else float(rng.uniform(0.1, 1))
        inv = {ix(o, s): (o, s) for o in range(n) for s in (0, 1)}
        for q in range(2 * n):
            o, s = inv[q]
            pc.add_orbital(tuple(p[o]), e[o] + (b if s else -b))
            rc.add_orb(p[o], e[o] + (b if s else -b))
        for _ in range(int(rng.integers(2, 10))):
            r, o1, o2 = gen.rn(rng, 1), int(rng.integers(n)), int(rng.integers(n))
            if sym:
                if r == (0, 0, 0) and o1 == o2:
                    continue
                t = gen.cplx(rng)
                for s in (0, 1):
                    pc.add_hopping(r, ix(o1, s), ix(o2, s), t)
                    rc.add_hop(r, ix(o1, s), ix(o2, s), t)
            else:
                i, j = ix(o1, int(rng.integers(2))), ix(o2, int(rng.integers(2)))
                if r == (0, 0, 0) and i == j:
                    continue
                t = gen.cplx(rng)
                pc.add_hopping(r, i, j, t)
                rc.add_hop(r, i, j, t)
        if not rc.hop:
            for s in (0, 1):
                pc.add_hopping((1, 0, 0), ix(0, s), ix(0, s), 1.0)
                rc.add_hop((1, 0, 0), ix(0, s), ix(0, s), 1.0)
    big = {c: np.kron(m, np.eye(n)) if major else np.kron(np.eye(n), m) for c, m in PAULI.items()}
    st = tb.SpinTexture(pc, np.array([gen.kpoint(rng) for _ in range(3)]), echo_details=False,
                        **({} if major and rng.random() < 0.5 else dict(spin_major=major)))
    for rnd in range(3):
        if rnd:
            u = rng.random()
            if u < 0.5:
                old = st.k_grid
                keep = old.copy()
                st.k_grid = np.array([gen.kpoint(rng) for _ in range(int(rng.integers(1, 5)))])
                obs.check(np.array_equal(old, keep), "the array of the former k-points was overwritten")
            elif u < 0.65:          # the same points in other directions
                st.k_grid = st.k_grid[:, rng.permutation(3)].copy(order="C")
            elif u < 0.8:           # the same points in another order
                st.k_grid = st.k_grid[rng.permutation(len(st.k_grid))]
            elif u < 0.9:           # only one point moves
                q = st.k_grid.copy()
                q[int(rng.integers(len(q))), int(rng.integers(3))] += float(rng.uniform(0.05, 0.5))
                st.k_grid = q
            else:                   # the array itself is changed
                st.k_grid[...] = rng.uniform(-1, 1, st.k_grid.shape)
            obs.ev("grids")
        for c in rng.permutation(["x", "y", "z"]):
            got = st.eval() if c == "z" and rng.random() < 0.5 else st.eval(str(c))
            obs.check(got.shape == (len(st.k_grid), 2 * n), f"shape {got.shape}")
            for k, g in zip(st.k_grid, got):
                ev, v = np.linalg.eigh(rc.ham(k, 1))
                if np.any((np.diff(ev) > 1e-9) & (np.diff(ev) < 1e-4)):
                    obs.ev("skipped")
                    continue
                grp = np.concatenate([[0], np.cumsum(np.diff(ev) > 1e-5)])
                want = np.real(np.einsum("ib,ij,jb->b", v.conj(), big[str(c)], v))
                for q in range(grp[-1] + 1):
                    m = grp == q
                    obs.close(g[m].sum(), want[m].sum(), f"<sigma_{c}> of bands "
                              f"{np.nonzero(m)[0]} at {k}, spin major {major}", tol=1e-6,
                              event="spins")
                    if m.sum() > 1:
                        obs.ev("degenerate_spins")
                obs.check(np.all(np.abs(g) <= 1 + 1e-9), "expectation value beyond one")
        gmat = 2 * np.pi * np.linalg.inv(rc.lat).T
        obs.close(st.k_cart, st.k_grid @ gmat, "Cartesian k-points", tol=1e-8, event="grids")
    obs.note(n=n, major=major, sym=bool(sym))
    obs.feed(rc.eng(), np.array(list(rc.hop.values())))
    obs.hard(not sym)


WORKLOADS = {"defaults": W(defaults.c22, 6, 60),
             "loops": W(w_loops, 120, 2000), "analytic": W(w_analytic, 40, 600),
             "invariants": W(w_invariants, 24, 300), "tracks": W(w_tracks, 150, 3000),
             "spin": W(w_spin, 100, 1500)}
