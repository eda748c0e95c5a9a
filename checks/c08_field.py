"""C08: magnetic fields enter as Peierls phases with the documented flux."""
import numpy as np

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

# flux quantum h/e in T nm^2; the code documents pi / 4135.666734 per T nm^2
PHI0 = 4135.667696

RULE = ("Random open-boundary samples (vacancies, displacements, several coupled supercells, "
        "also rescaled first), all three gauges, fields of both signs from 0.01 to 1000 T, and "
        "periodic ribbons and tori. Non-trivial: field moves an eigenvalue by more than 1e-6. "
        "Oracle: phase of every bond = vector potential integrated along the bond; equal "
        "spectra in all gauges; phase around closed loops = enclosed area x field / (h/e); "
        "Hermiticity; exact additivity and inversion in the field.")
REQUIRED = ["bond_phases", "gauge_spectra", "loops", "inversions", "periodic_bonds", "defaults"]
GAUGES = (0, 1, 2)


def apot(gauge, p, b):
    """Vector potential of a field along -z, as documented."""
    x, y = p[..., 0], p[..., 1]
    z = np.zeros_like(x)
    return {0: np.stack([b * y, z], -1), 1: np.stack([z, -b * x], -1),
            2: np.stack([0.5 * b * y, -0.5 * b * x], -1)}[gauge]


def field(rng):
    b = float(10.0 ** rng.uniform(-2, 3)) * float(rng.choice([-1, 1]))
    return b


def ham(sm):
    return sm.build_ham_csr().toarray() * sm.rescale


def w_open(rng, obs):
    sm, rs, scs, ihs = gen.sample_pair(rng, pbc=(False, False, False), max_orb=70,
                                       nsup=int(rng.choice([1, 1, 2])))
    # couplings to other cells make no closed finite sample: use only the home cell
    if any(k[0] != (0, 0, 0) for t in rs.inter for k in t[2]):
        closed = False
    else:
        closed = True
    b = field(rng)
    pos = rs.pos()
    h0 = rs.ham()
    if rng.random() < 0.4:
        sm.rescale_ham(float(rng.uniform(1, 20)))
    spectra = {}
    mats = {}
    for g in GAUGES:
        sm2 = sm
        sm2.reset_array()
        if rng.random() < 0.5:
            sm2.rescale_ham(float(rng.uniform(1, 20)))
        sm2.set_magnetic_field(b, gauge=g)
        h = ham(sm2)
        obs.close(h, h.conj().T, f"gauge {g}: not Hermitian")
        def phase(i, j, d):
            # straight bond from r_i to r_i + d, both ends taken as in the sample
            a = apot(g, pos[i], b) + apot(g, pos[j], b)
            return np.exp(1j * np.pi / PHI0 * np.sum(a * d[:, :2], axis=1))
        want = rs.ham(weight=phase)
        obs.close(h, want, f"gauge {g}, {b} T: Peierls phases", tol=2e-5, event="bond_phases")
        mats[g] = h
        spectra[g] = np.linalg.eigvalsh(h)
        # reversing the field undoes it
        sm2.set_magnetic_field(-b, gauge=g)
        obs.close(ham(sm2), h0, f"gauge {g}: field switched off again", tol=1e-9,
                  event="inversions")
        sm2.set_magnetic_field(b / 3, gauge=g)
        sm2.set_magnetic_field(2 * b / 3, gauge=g)
        obs.close(ham(sm2), h, f"gauge {g}: field applied in two steps", tol=1e-9,
                  event="inversions")
    if closed:
        for g in (1, 2):
            obs.close(spectra[g], spectra[0], f"spectrum in gauge {g} differs from gauge 0 "
                      f"at {b} T", tol=1e-7, event="gauge_spectra")
        # triangle and quadrilateral loops
        loops = 0
        adj = np.abs(h0) > 1e-6
        for i in range(rs.n):
            nb = [j for j in np.flatnonzero(adj[i]) if j != i]
            for j in nb:
                for k in np.flatnonzero(adj[j]):
                    if k == i or k == j or loops > 60:
                        continue
                    # both loops i-j-k-i and i-j-k-l-i
                    ends = ([()] if adj[k, i] else []) + \
                        [(l,) for l in nb if l not in (i, j, k) and adj[k, l]]
                    for e in ends[:2]:
                        path = (i, j, k) + e
                        loops += 1
                        area = 0.0
                        for a, c in zip(path, path[1:] + path[:1]):
                            area += 0.5 * (pos[a, 0] * pos[c, 1] - pos[c, 0] * pos[a, 1])
                        for g in GAUGES:
                            prod = 1.0 + 0j
                            for a, c in zip(path, path[1:] + path[:1]):
                                prod *= mats[g][a, c] / h0[a, c]
                            # A = (By, 0): curl A = -B z; flux = -B * area
                            want = np.exp(1j * 2 * np.pi * (-b * area) / PHI0)
                            obs.close(prod, want, f"gauge {g}: flux through loop {path}",
                                      tol=2e-4, event="loops")
    shift = np.max(np.abs(spectra[0] - np.linalg.eigvalsh(h0)))
    obs.note(orbitals=rs.n, B=round(b, 3), closed=closed)
    obs.hard(shift > 1e-6)
    obs.raises(ValueError, lambda: sm.set_magnetic_field(b, gauge=int(rng.choice([3, -1]))),
               "unknown gauge")


def w_periodic(rng, obs):
    """Bonds across periodic boundaries: unwrapped vector, Hermitian, reversible."""
    sm, rs, scs, ihs = gen.sample_pair(rng, pbc=(True, True, False), max_orb=60, nsup=1)
    b, g = field(rng), int(rng.integers(3))
    sm.init_hop(), sm.init_orb_pos()
    hi, hj, hv0, dr = sm.hop_i.copy(), sm.hop_j.copy(), sm.hop_v.copy(), sm.dr.copy()
    sm.set_magnetic_field(b, gauge=g)
    obs.check(np.array_equal(sm.hop_i, hi) and np.array_equal(sm.hop_j, hj)
              and np.array_equal(sm.dr, dr), "the field changes the bonds themselves")
    pos = rs.pos()
    # bonds that stay inside the sample
    home = np.max(np.abs(dr - (pos[hj] - pos[hi])), axis=1) < 1e-8
    a = apot(g, pos[hi], b) + apot(g, pos[hj], b)
    want = hv0 * np.exp(1j * np.pi / PHI0 * np.sum(a * dr[:, :2], axis=1))
    obs.close(sm.hop_v[home], want[home], f"gauge {g}: phases inside", tol=2e-5,
              event="bond_phases")
    obs.close(np.abs(sm.hop_v), np.abs(hv0), "the field changes the strength of bonds",
              event="periodic_bonds")
    h = ham(sm)
    obs.close(h, h.conj().T, "not Hermitian")
    obs.close(sm.orb_eng, rs.eng(), "the field changes on-site energies")
    sm.set_magnetic_field(-b, gauge=g)
    obs.close(ham(sm), rs.ham(), "field switched off again", event="inversions")
    obs.note(orbitals=rs.n, B=round(b, 3), gauge=g)
    obs.hard(np.any(np.abs(want - hv0) > 1e-6))


WORKLOADS = {"defaults": W(defaults.c08, 15, 150),
             "open": W(w_open, 250, 3000), "periodic": W(w_periodic, 120, 1500)}
