"""C13: Lindhard response functions against their defining sums."""
import numpy as np

from vlib import defaults, gen
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random cells (1-5 orbitals, complex hoppings, 2D and 3D, shifted origins), meshes from "
        "1x1x1 up, temperatures 1-20000 K, chemical potentials in and out of the bands, random "
        "frequency grids, several q-points per call (zero, negative, beyond the zone). "
        "Non-trivial: at least two orbitals and two k-points. Oracle: the Lindhard and "
        "Kubo-Greenwood sums evaluated with the shadow Hamiltonian; both back ends; both routes.")
REQUIRED = ["polarizabilities", "routes", "backends", "conductivities", "epsilons",
            "conversions", "several_q", "components", "cold", "defaults"]
KB = 8.617333262e-5
EPS0 = 0.6944615417149689


def fermi(e, mu, beta):
    x = np.clip(beta * (e - mu), -700, 700)
    return 1 / (1 + np.exp(x))


def flat_lattice(rng):
    while True:
        m = np.zeros((3, 3))
        m[:2, :2] = rng.uniform(-3, 3, (2, 2))
        m[2, 2] = rng.uniform(2, 15)
        s = np.linalg.svd(m[:2, :2], compute_uv=False)
        if s[-1] > 0.8 and s[0] / s[-1] < 5:
            return m


def setup(rng):
    dim = int(rng.choice([2, 3]))
    lat = flat_lattice(rng) if dim == 2 else gen.lattice(rng)
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 6)), lat=lat, rmax=1,
                           dims=2 if dim == 2 else None)
    size = tuple(int(x) for x in rng.integers(1, 5, 3))
    if rng.random() < 0.05:
        size = tuple(int(x) for x in rng.permutation([int(rng.integers(5, 14)), int(rng.integers(5, 9)), 1]))
    if dim == 2:
        size = size[:2] + (1,)
    par = dict(energy_min=float(rng.uniform(0.05, 1.0)), energy_max=float(rng.uniform(1.5, 8)),
               energy_step=int(rng.integers(1, 7) if rng.random() < 0.95 else rng.integers(50, 200)), mu=gen.real(rng, 2.0),
               temperature=float(rng.choice([1.0, 77.0, 300.0, 3000.0, 20000.0])),
               g_s=int(rng.choice([1, 2])), back_epsilon=float(rng.uniform(1, 5)),
               dimension=dim, delta=float(rng.uniform(0.003, 0.1)))
    par["extended"] = 1.0
    if rng.random() < 0.3:      # a cell marked as made of several primitive cells
        pc.extended = par["extended"] = float(rng.integers(2, 5))
    lin = tb.Lindhard(pc, kmesh_size=size, echo_details=False, **{k: v for k, v in par.items() if k != "extended"})
    # the cell may be edited after the calculator was made
    if rng.random() < 0.3:
        if rng.random() < 0.6:      # and used before the edit
            for x in (lin.calc_dyn_pol_regular(np.array([[1, 0, 0]]))[1],
                      lin.calc_dyn_pol_arbitrary(np.array([[0.3, 0.1, 0.0]]))[1], lin.calc_ac_cond("xy")[1]):
                x += 1
        if rng.random() < 0.6:
            s = float(rng.uniform(0.8, 1.6))
            pc.reset_lattice(rc.lat * s, unit=tb.NM, fix_orb=False)
            rc.lat = rc.lat * s
        if rng.random() < 0.6:
            en = gen.real(rng)
            pc.set_orbital(0, energy=en)
            rc.orbs[0][1] = en
        if rng.random() < 0.4:
            p = tuple(rng.uniform(0, 1, 3))
            pc.add_orbital(p, energy=0.3)
            rc.add_orb(p, 0.3)
            pc.add_hopping((0, 0, 0), 0, rc.n - 1, 0.4)
            rc.add_hop((0, 0, 0), 0, rc.n - 1, 0.4)
    return pc, rc, size, par, lin


def mesh(size):
    return np.array([[a / size[0], b / size[1], c / size[2]] for a in range(size[0])
                     for b in range(size[1]) for c in range(size[2])])


def ref_dyn_pol(rc, size, par, qfrac, omegas):
    """qfrac: fractional, not wrapped"""
    beta = 1 / (KB * par["temperature"])
    bvec = 2 * np.pi * np.linalg.inv(rc.lat).T
    ks = mesh(size)
    d = par["dimension"]
    dnk = (np.linalg.norm(np.cross(bvec[0], bvec[1])) if d == 2
           else abs(np.linalg.det(bvec))) / len(ks)
    ph = np.exp(2j * np.pi * (rc.pos() + rc.origin @ np.linalg.inv(rc.lat)) @ qfrac)
    out = np.zeros(len(omegas), complex)
    for k in ks:
        e1, v1 = np.linalg.eigh(rc.ham(k, 2))
        e2, v2 = np.linalg.eigh(rc.ham(k + qfrac, 2))
        m = np.abs((v2.conj() * ph[:, None]).T @ v1) ** 2       # [l, j]
        df = fermi(e1, par["mu"], beta)[None, :] - fermi(e2, par["mu"], beta)[:, None]
        de = e1[None, :] - e2[:, None]
        for iw, w in enumerate(omegas):
            out[iw] += np.sum(m * df / (de + w + 1j * par["delta"]))
    return out * par["g_s"] * dnk / (2 * np.pi) ** d / par["extended"]


def ref_ac(rc, size, par, comp, omegas):
    beta = 1 / (KB * par["temperature"])
    ks = mesh(size)
    tau = rc.pos()
    out = np.zeros(len(omegas), complex)
    gap = np.inf
    for k in ks:
        h = rc.ham(k, 1)
        v = [np.zeros_like(h) for _ in range(3)]
        for (r, i, j), e in rc.hop.items():
            d = np.array(r, float) + tau[j] - tau[i]
            dr = d @ rc.lat
            t = e * np.exp(2j * np.pi * np.dot(k, d))
            for x in range(3):
                v[x][i, j] += 1j * t * dr[x]
        e, u = np.linalg.eigh(h)
        a = u.conj().T @ v["xyz".index(comp[0])] @ u
        b = u.conj().T @ v["xyz".index(comp[1])] @ u
        f = fermi(e, par["mu"], beta)
        de = e[:, None] - e[None, :]            # [m, n]
        ad = np.abs(de)
        gap = min([gap] + list(ad[(ad > 1e-11)]))
        ok = ad >= 1e-7
        fac = np.where(ok, (f[:, None] - f[None, :]) / np.where(ok, de, 1), 0)
        prod = a.T * b * fac                    # v_nm v_mn
        for iw, w in enumerate(omegas):
            out[iw] += np.sum(prod / (de - w - 1j * par["delta"]))
    if par["dimension"] == 2:
        vol = np.linalg.norm(np.cross(rc.lat[0], rc.lat[1]))
    else:
        vol = abs(np.linalg.det(rc.lat))
    return out * par["g_s"] * 1j / (vol * len(ks)) / par["extended"], gap


def w_dynpol(rng, obs):
    pc, rc, size, par, lin = setup(rng)
    want_om = np.linspace(par["energy_min"], par["energy_max"], par["energy_step"] + 1)
    nq = int(rng.integers(1, 5) if rng.random() < 0.95 else rng.integers(8, 24))
    q = rng.integers(-6, 7, (nq, 3))
    if rng.random() < 0.2:
        q[0] = 0
    if par["dimension"] == 2:
        q[:, 2] = 0
    q = q.astype(np.int64)
    res = {}
    for fort in (True, False):
        om, res[fort] = lin.calc_dyn_pol_regular(q if rng.random() < 0.6 else q.tolist(), use_fortran=fort)
        obs.close(om, want_om, "frequency grid")
    qf = q / np.array(size)
    want = np.array([ref_dyn_pol(rc, size, par, x, want_om) for x in qf])
    tol = 1e-7
    obs.close(res[True], want, "polarizability, regular q (Fortran)", tol=tol,
              event="polarizabilities")
    obs.close(res[False], want, "polarizability, regular q (Cython)", tol=tol, event="backends")
    bvec = 2 * np.pi * np.linalg.inv(rc.lat).T
    qc = qf @ bvec
    for fort in (True, False):
        om, arb = lin.calc_dyn_pol_arbitrary(qc, use_fortran=fort)
        obs.close(arb, want, f"polarizability, mesh q by the arbitrary route (fortran={fort})",
                  tol=tol, event="routes")
    # points off the mesh
    qa = rng.uniform(-1.5, 1.5, (nq, 3))
    if par["dimension"] == 2:
        qa[:, 2] = 0
    form = qa @ bvec
    if rng.random() < 0.3:
        form = [tuple(x) for x in form]
    om, arb = lin.calc_dyn_pol_arbitrary(form, use_fortran=bool(rng.integers(2)))
    wa = np.array([ref_dyn_pol(rc, size, par, x, want_om) for x in qa])
    obs.close(arb, wa, "polarizability, arbitrary q", tol=tol, event="polarizabilities")
    # each q alone gives the same as all of them together
    one = lin.calc_dyn_pol_arbitrary(np.array([form[-1]]), use_fortran=True)[1][0]
    obs.close(one, arb[-1], "one q-point alone", tol=tol, event="several_q")
    # dielectric function
    eps = lin.calc_epsilon(form, arb)
    qn = np.linalg.norm(qa @ bvec, axis=1)
    vq = (2 * np.pi / qn if par["dimension"] == 2 else 4 * np.pi / qn ** 2) / (
        EPS0 * par["back_epsilon"])
    obs.close(eps, 1 - vq[:, None] * wa, "dielectric function", tol=1e-6, event="epsilons")
    if par["temperature"] <= 1.0:
        obs.ev("cold")
    obs.note(n=rc.n, size=size, nq=nq, **{k: par[k] for k in ("dimension", "temperature", "g_s")})
    obs.feed(want)
    obs.hard(rc.n > 1 and np.prod(size) > 1)


def w_ac(rng, obs):
    pc, rc, size, par, lin = setup(rng)
    want_om = np.linspace(par["energy_min"], par["energy_max"], par["energy_step"] + 1)
    comp = "".join(rng.choice(list("xyz"), 2))
    want, gap = ref_ac(rc, size, par, comp, want_om)
    if gap < 1e-6:      # near-degenerate pair at the documented threshold
        return
    for fort in (True, False):
        om, ac = lin.calc_ac_cond(comp, use_fortran=fort)
        obs.close(om, want_om, "frequency grid")
        obs.close(ac, want, f"{comp} conductivity (fortran={fort})", tol=1e-7,
                  event="conductivities" if fort else "backends")
    if par["dimension"] == 3:
        e = lin.calc_epsilon_q0(om, ac)
        obs.close(e, 1 + 4j * np.pi * want / (EPS0 * par["back_epsilon"] * want_om),
                  "dielectric function at q=0", tol=1e-6, event="epsilons")
    else:
        obs.raises(ValueError, lambda: lin.calc_epsilon_q0(om, ac), "2D dielectric function at q=0")
    for bad in ("xw", "x", "", "xyz", "xyw", "XX"):
        obs.raises(ValueError, lambda: lin.calc_ac_cond(bad), f"component {bad!r}")
    obs.ev("components")
    obs.note(n=rc.n, size=size, comp=comp, dim=par["dimension"])
    obs.feed(want)
    obs.hard(rc.n > 1 and np.prod(size) > 1)


def w_grid(rng, obs):
    pc, rc, size, par, lin = setup(rng)
    size = np.array(size)
    bvec = 2 * np.pi * np.linalg.inv(rc.lat).T
    g = rng.integers(-20, 21, (int(rng.integers(1, 9)), 3))
    w = lin.wrap_grid(g if rng.random() < 0.5 else g.tolist())
    obs.check(np.all(w >= 0) and np.all(w < size) and np.all((w - g) % size == 0),
              f"wrap_grid {g.tolist()} -> {w.tolist()}", event="conversions")
    f = lin.grid2frac(g)
    obs.close(f, g / size, "grid to fractional", event="conversions")
    unit = float(rng.choice([1.0, 0.1]))
    c = lin.grid2cart(g, unit=unit)
    obs.close(c, (g / size) @ bvec * unit, "grid to Cartesian", event="conversions")
    x = rng.uniform(-3, 3, (4, 3))
    obs.close(lin.frac2cart(x, unit=unit), x @ bvec * unit, "fractional to Cartesian",
              event="conversions")
    obs.close(lin.frac2cart(x.tolist(), unit=unit), x @ bvec * unit, "fractional to Cartesian, from a list")
    obs.close(lin.cart2frac((x @ bvec * unit).tolist(), unit=unit), x, "Cartesian to fractional, from a list")
    obs.close(lin.cart2frac(lin.frac2cart(x, unit=unit), unit=unit), x,
              "Cartesian to fractional", event="conversions")
    x[int(rng.integers(4)), int(rng.integers(3))] = float(rng.integers(-2, 3))
    if rng.random() < 0.4:      # next to the faces of the zone
        x[int(rng.integers(4)), int(rng.integers(3))] = float(rng.integers(-1, 3)
                                                              + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-18, -8))
    keep = x.copy()
    y = lin.wrap_frac(x)
    obs.check(np.array_equal(lin.wrap_frac(x.tolist()), y), "wrap_frac of a list", event="conversions")
    obs.check(np.all(y >= 0) and np.all(y < 1), "wrap_frac left the zone", event="conversions")
    obs.close(np.round(y - x), y - x, "wrap_frac moved by a non-integer", event="conversions")
    obs.check(np.array_equal(x, keep), "wrap_frac changed its argument")
    for bad in ((2, 2), (1, 2, 3, 4)):
        obs.raises(ValueError, lambda: tb.Lindhard(pc, kmesh_size=bad, echo_details=False),
                   f"mesh {bad}")
    obs.raises(ValueError, lambda: tb.Lindhard(pc, kmesh_size=(2, 2, 2), dimension=2,
                                               echo_details=False), "3D mesh in two dimensions")
    obs.raises(ValueError, lambda: tb.Lindhard(pc, kmesh_size=(2, 2, 2), dimension=1,
                                               echo_details=False), "dimension 1")
    obs.note(size=size.tolist(), n=len(g))
    obs.hard()


WORKLOADS = {"defaults": W(defaults.c13, 15, 150),
             "dynpol": W(w_dynpol, 160, 2000), "ac": W(w_ac, 160, 2000),
             "grid": W(w_grid, 60, 600)}
