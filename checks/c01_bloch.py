"""C01: the Bloch Hamiltonian is the one the user wrote down."""
import contextlib
import io

import numpy as np

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random lattices (skewed, 1-3 periodic directions), 1-8 orbitals, random "
        "complex hoppings entered in either direction, as tuples, arrays, 2- or "
        "3-component cell indices, or matrices; random and special k-points. "
        "Non-trivial: at least one complex or inter-cell hopping. Oracle: direct "
        "sum over the entered terms and their adjoints.")
REQUIRED = ["dense_compared", "csr_compared", "overlap_compared", "periodicity", "printed_compared", "defaults", "matrices", "large"]
ASSUMPTIONS = ["reference sum in double precision, tolerance 1e-9 relative"]


def dense(model, k, conv):
    model.sync_array()
    h = np.zeros((model.num_orb, model.num_orb), dtype=np.complex128)
    model.set_ham_dense(np.ascontiguousarray(k, dtype=np.float64), h, conv)
    return h


def judge(obs, pc, rc, rng, nk=3):
    for _ in range(nk):
        k = gen.kpoint(rng)
        hs = {}
        for conv in (1, 2):
            want = rc.ham(k, conv)
            got = dense(pc, k, conv)
            obs.close(got, want, f"dense H(k) convention {conv}", event="dense_compared")
            obs.close(got, got.conj().T, f"dense H(k) not Hermitian, convention {conv}",
                      tol=1e-12)
            csr = pc.set_ham_csr(k, conv)
            obs.check(csr.shape == want.shape, "sparse H(k) has a wrong shape")
            obs.close(csr.toarray(), want, f"sparse H(k) convention {conv}",
                      event="csr_compared")
            hs[conv] = got
        obs.close(np.linalg.eigvalsh(hs[1]), np.linalg.eigvalsh(hs[2]),
                  "the two conventions have different spectra", tol=1e-8)
        g = rng.integers(-2, 3, 3).astype(float)
        obs.close(dense(pc, k + g, 2), hs[2], "H(k+G) differs in convention 2",
                  tol=1e-8, event="periodicity")
        u = np.exp(-2j * np.pi * rc.pos() @ g)
        obs.close(dense(pc, k + g, 1),
                  (u[:, None] * hs[1]) * u[None, :].conj(),
                  "H(k+G) in convention 1 is not the gauge transform of H(k)",
                  tol=1e-8, event="periodicity")
        obs.close(np.linalg.eigvalsh(dense(pc, k + g, 1)), np.linalg.eigvalsh(hs[1]),
                  "bands are not periodic in k", tol=1e-8)


def w_models(rng, obs):
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(30, 90) if rng.random() < 0.02 else rng.integers(1, 9)))
    obs.note(orbitals=rc.n, terms=rc.num_terms)
    obs.feed(rc.eng(), np.array(list(rc.hop.values())))
    obs.hard(any(abs(e.imag) > 0 or k[0] != (0, 0, 0) for k, e in rc.hop.items()))
    judge(obs, pc, rc, rng)


def w_large(rng, obs):
    """Many orbitals, many terms, or both."""
    style = int(rng.integers(3))
    pc, rc = gen.cell_pair(rng, norb=(1, 150, 30)[style], rmax=(12, 1, 3)[style], nhop=(1500, 600, 1800)[style])
    obs.note(orbitals=rc.n, terms=rc.num_terms)
    obs.feed(rc.eng())
    judge(obs, pc, rc, rng, nk=1)
    obs.ev("large")
    obs.hard()


def w_entry_forms(rng, obs):
    """The same model entered through different doors."""
    norb = int(rng.integers(1, 5))
    lat = gen.lattice(rng)
    pc = tb.PrimitiveCell(lat, unit=tb.ANG)
    rc = ref.RefCell(lat * 0.1)
    for i in range(norb):
        f = rng.uniform(0, 1, 3)
        form = int(rng.integers(4))
        e = gen.real(rng)
        if form == 0:
            pc.add_orbital(f, energy=e)
        elif form == 1:
            f[2] = 0.0
            pc.add_orbital((f[0], f[1]), energy=e)
        elif form == 2:
            pc.add_orbital_cart(f @ lat, unit=tb.ANG, energy=e)
        else:
            pc.add_orbital_cart(tuple(f @ lat * 0.1), unit=tb.NM, energy=e)
        rc.add_orb(f, e)
    forms = set()
    for _ in range(int(rng.integers(2, 14))):
        r = gen.rn(rng, 2, int(rng.integers(1, 4)))
        i, j = int(rng.integers(norb)), int(rng.integers(norb))
        if r == (0, 0, 0) and i == j:
            continue
        e = gen.cplx(rng)
        form = int(rng.integers(5))
        forms.add(form)
        if form == 1 and r[2] == 0:
            pc.add_hopping(r[:2], i, j, e)
        elif form == 2:
            pc.add_hopping(tuple(-x for x in r), j, i, complex(e).conjugate())
        elif form == 3:
            pc.add_hopping(tuple(np.array(r, dtype=int).tolist()), i, j, np.complex128(e))
        elif form == 4:
            pc.add_hopping(r, i, j, e)
            pc.add_hopping(tuple(-x for x in r), j, i, complex(e).conjugate())
        else:
            pc.add_hopping(r, i, j, e)
        rc.add_hop(r, i, j, e)
    if rng.random() < 0.5:
        hd = tb.HopDict(norb)
        r = gen.rn(rng, 2)
        m = np.array([[gen.cplx(rng) for _ in range(norb)] for _ in range(norb)],
                     dtype=np.complex128)
        if r == (0, 0, 0):
            m = m + m.conj().T
            np.fill_diagonal(m, 0)
        if rng.random() < 0.5:
            hd[r] = m
        else:
            for i in range(norb):
                for j in range(norb):
                    hd[r][i, j] = m[i, j]
        pc.add_hopping_dict(hd)
        for i in range(norb):
            for j in range(norb):
                if m[i, j] != 0:
                    rc.add_hop(r, i, j, m[i, j])
        forms.add("matrix")
    if not rc.hop:
        pc.add_hopping((0, 1, 0), 0, 0, 1j)
        rc.add_hop((0, 1, 0), 0, 0, 1j)
    obs.note(orbitals=norb, terms=rc.num_terms, forms=sorted(map(str, forms)))
    obs.feed(rc.eng(), np.array(list(rc.hop.values())))
    obs.hard(len(forms) > 1)
    judge(obs, pc, rc, rng, nk=2)


def w_overlap(rng, obs):
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 5)))
    ov = tb.Overlap(pc)
    ro = rc.copy()
    ro.hop = {}
    for o in ro.orbs:
        o[1] = 1.0
    for (r, i, j) in list(rc.hop):
        if rng.random() < 0.5:
            s = gen.cplx(rng, 0.2)
            ov.add_offsite(r, i, j, s)
            ro.add_hop(r, i, j, s)
    if not ro.hop:
        ov.add_offsite((0, 0, 1), 0, 0, 0.1)
        ro.add_hop((0, 0, 1), 0, 0, 0.1)
    if rng.random() < 0.5:
        i = int(rng.integers(rc.n))
        ov.set_onsite(i, 1.25)
        ro.orbs[i][1] = 1.25
    obs.note(orbitals=rc.n, overlaps=ro.num_terms)
    obs.feed(np.array(list(ro.hop.values())))
    obs.hard()
    for _ in range(2):
        k = gen.kpoint(rng)
        for conv in (1, 2):
            ov.sync_array()
            s = np.zeros((rc.n, rc.n), dtype=np.complex128)
            ov.set_overlap_dense(k, s, conv)
            obs.close(s, ro.ham(k, conv), "dense overlap", event="overlap_compared")
            obs.close(ov.set_overlap_csr(k, conv).toarray(), ro.ham(k, conv),
                      "sparse overlap", event="overlap_compared")
            # the overlap must not disturb the model
            obs.close(dense(pc, k, conv), rc.ham(k, conv), "model changed by its overlap")


def w_printed(rng, obs):
    """The printed formula, evaluated as it stands, is the Hamiltonian."""
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 5)))
    for conv in (1, 2):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            pc.print_hk(conv)
        text, _, tail = out.getvalue().rpartition("with exp_i")
        obs.check("cos(2 * pi * x) + 1j * sin(2 * pi * x)" in tail, "definition of exp_i is missing")
        for _ in range(2):
            k = gen.kpoint(rng)
            env = dict(ham=np.zeros((rc.n, rc.n), complex), ka=k[0], kb=k[1], kc=k[2],
                       exp_i=lambda x: np.exp(2j * np.pi * x), np=np)
            try:
                exec(compile(text, "<print_hk>", "exec"), env)
            except (SyntaxError, NameError, TypeError) as e:
                obs.check(False, f"the printed formula cannot be evaluated: {e}")
            # components below 1e-5 are left out by design
            obs.close(env["ham"], rc.ham(k, conv), f"printed H(k) convention {conv}", tol=2e-3,
                      event="printed_compared")
    obs.raises(ValueError, lambda: pc.print_hk(3), "convention 3")
    obs.note(orbitals=rc.n, terms=rc.num_terms)
    obs.feed(np.array(list(rc.hop.values())))
    obs.hard(rc.num_terms > 1)


def w_matrices(rng, obs):
    """The container of hopping matrices: copies what it is given, completes cell indices, refuses on-site terms in
    the home cell only."""
    n = int(rng.integers(1, 5))
    hd = tb.HopDict(n)
    obs.check(hd.num_orb == n and tuple(hd.mat_shape) == (n, n), "size")
    want = {}
    for _ in range(int(rng.integers(1, 6))):
        r = gen.rn(rng, 2)
        m = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        if r == (0, 0, 0):
            m = m + m.conj().T
            np.fill_diagonal(m, 0)
        key = r[:2] if r[2] == 0 and rng.random() < 0.5 else r
        given = m.copy() if rng.random() < 0.7 else m.tolist()
        hd[key] = given
        if isinstance(given, np.ndarray):
            given[:] = 99.0
        want[r] = m
        if rng.random() < 0.3:
            i, j = int(rng.integers(n)), int(rng.integers(n))
            if r != (0, 0, 0):
                hd[r][i, j] = want[r][i, j] = 2.5 + 1j
    for r, m in want.items():
        obs.close(hd[r], m, f"matrix of {r}", event="matrices")
    obs.hard(len(want) > 1)
    r = gen.rn(rng, 2)
    obs.raises(tb.CellIndexLenError, lambda: hd[(1,)], "cell index of length 1")
    obs.raises(tb.CellIndexLenError, lambda: hd.__setitem__((1, 0, 0, 0), np.zeros((n, n))), "cell index of length 4")
    obs.raises(ValueError, lambda: hd.__setitem__((1, 0, 0), np.zeros((n, n + 1))), "matrix of wrong shape")
    i = int(rng.integers(n))
    bad = np.zeros((n, n), complex)
    bad[i, i] = gen.nonzero(gen.real, rng)
    fresh = tb.HopDict(n)
    form = [bad, bad.real.copy(), 1j * bad, bad.tolist(), np.diag((np.arange(n) == i) * 2)][int(rng.integers(5))]
    obs.raises(tb.PCHopDiagonalError, lambda: fresh.__setitem__((0, 0, 0), form), "on-site term in the home cell")
    fresh = tb.HopDict(n)
    fresh[(1, 0, 0)] = bad
    obs.close(fresh[(1, 0, 0)], bad, "diagonal of another cell")
    pc = tb.PrimitiveCell(gen.lattice(rng), unit=tb.ANG)
    rc = ref.RefCell(np.array(pc.lat_vec))
    for o in range(n):
        p, e = tuple(float(x) for x in rng.uniform(0, 1, 3)), gen.real(rng)
        pc.add_orbital(p, e)
        rc.add_orb(p, e, "X")
    pc.add_hopping_dict(hd)
    done = {}
    for r, m in want.items():
        for a in range(n):
            for b in range(n):
                t, u = (r, a, b), (tuple(-x for x in r), b, a)
                if m[a, b] != 0:
                    done.pop(u, None)
                    done[t] = m[a, b]
    for (r, a, b), e in done.items():
        rc.add_hop(r, a, b, e)
    if rc.hop:
        k = gen.kpoint(rng)
        obs.close(dense(pc, k, 1), rc.ham(k, 1), "H(k) of a cell made from matrices")
    for r, m in want.items():
        x = hd[r]
        obs.close(x.toarray() if hasattr(x, "toarray") else x, m, f"matrix of {r} after use")
    hd.num_orb = n + 1
    obs.check(hd.num_orb == n + 1 and tuple(hd.mat_shape) == (n + 1, n + 1), "size after a change")


WORKLOADS = {"matrices": W(w_matrices, 40, 400),
             "defaults": W(defaults.c01, 15, 150),
             "large": W(w_large, 6, 60),
    "printed": W(w_printed, 80, 800),
    "models": W(w_models, 500, 6000),
    "entry_forms": W(w_entry_forms, 350, 4000),
    "overlap": W(w_overlap, 120, 1200),
}
