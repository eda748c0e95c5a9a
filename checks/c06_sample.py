"""C06: the sample Hamiltonian in all its representations."""
import os
import tempfile

import numpy as np
from scipy.sparse import csr_matrix

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random samples of one to three supercells with vacancies, displacements, extra bonds "
        "and couplings, at random k-points, before and after rescaling, k-shifts and disk "
        "round trips. Non-trivial: couplings, vacancies or extra bonds present, or k != 0. "
        "Oracle: dense Hamiltonian assembled bond by bond from the shadow model; periodic "
        "samples: spectrum of the shadow primitive cell folded onto the supercell.")
REQUIRED = ["first_calls", "sparse_h", "dense_h", "cond_h", "velocity", "round_trips", "folded", "closure", "large_h", "defaults"]


def judge(obs, sm, rs, rng, factor=1.0, kshift=None, what=""):
    """Every representation against the shadow; H/factor stored, k-shift applied."""
    shift = kshift if kshift is not None else np.zeros(3)
    sm.init_orb_eng()
    sm.init_orb_pos()
    sm.init_hop()
    n = rs.n
    obs.check(sm.num_orb == n, f"{what}: number of orbitals")
    obs.close(sm.orb_eng * factor, rs.eng(), f"{what}: energies")
    obs.close(sm.orb_pos, rs.pos(), f"{what}: positions")
    stored = rs.ham(kfrac=shift) / factor
    herm = lambda m: obs.close(m, m.conj().T, f"{what}: not Hermitian", event="hermitian")
    # sparse Hamiltonian used by propagation
    csr = sm.build_ham_csr()
    if rng.random() < 0.3 and csr.nnz:         # what the caller does to a matrix is the caller's affair
        csr.data[:] *= 3
        csr = sm.build_ham_csr()
    herm(csr.toarray())
    obs.close(csr.toarray(), stored, f"{what}: sparse Hamiltonian", event="sparse_h")
    # dense and sparse Hamiltonians used by diagonalisation: unscaled, at k
    for k in (np.zeros(3), gen.kpoint(rng)):
        want = rs.ham(kfrac=shift + k)
        dense = np.full((n, n), 7.0 + 3j) if rng.random() < 0.5 else np.zeros((n, n), complex)
        sm.set_ham_dense(k, dense)
        herm(dense)
        obs.close(dense, want, f"{what}: dense Hamiltonian at k={k}", event="dense_h")
        obs.close(sm.set_ham_csr(k).toarray(), want, f"{what}: sparse Hamiltonian at k={k}",
                  event="dense_h")
    # conductivity arrays
    i, j, v, d = rs.bonds()
    cut = float(rng.choice([1e-5, 1e-5, 0.3]))
    for algo in ("fast", "safe"):
        sort = bool(rng.random() < 0.5)
        ip, ix, h, dx, dy = sm.build_ham_dxy(orb_eng_cutoff=cut, algo=algo, sort_col=sort)
        obs.check(ip[0] == 0 and len(ip) == n + 1 and ip[-1] == len(ix) == len(h) == len(dx)
                  == len(dy) and np.all(np.diff(ip) >= 0), f"{what}: {algo}: malformed arrays")
        eng = rs.eng() / factor
        # energies within rounding of the cutoff may go either way
        obs.check(not len(ix) or (ix.min() >= 0 and ix.max() < n), f"{what}: {algo}: columns")
        edge = np.abs(np.abs(eng) - cut) < 1e-9
        dropped = np.where((np.abs(eng) < cut) & ~edge, eng, 0)
        hd = csr_matrix((h, ix, ip), shape=(n, n)).toarray()
        diff = hd - (stored - np.diag(dropped))
        diff[edge, edge] = 0
        obs.close(diff, np.zeros_like(diff), f"{what}: {algo}: Hamiltonian", event="cond_h")
        herm(hd)
        # sum of v*d over the bonds between each pair = current operator
        for arr, c in ((dx, 0), (dy, 1)):
            cur = csr_matrix((h * arr, ix, ip), shape=(n, n)).toarray()
            ph = np.exp(1j * d @ (shift @ (2 * np.pi * np.linalg.inv(rs.supers[0].sc_lat).T)))
            w = np.zeros((n, n), complex)
            np.add.at(w, (i, j), v * ph * d[:, c] / factor)
            obs.close(cur, w, f"{what}: {algo}: bond length times hopping", event="velocity")
        if sort:
            for r in range(n):
                obs.check(np.all(np.diff(ix[ip[r]:ip[r + 1]]) >= 0), "columns not sorted")
    if factor == 1.0:
        obs.close(sm.rescale, 1.0, f"{what}: rescale")
    dxm, dym = sm.build_dxy_csr()
    for arr, c in ((dxm, 0), (dym, 1)):
        w = np.zeros((n, n))
        np.add.at(w, (i, j), d[:, c])
        obs.close(arr.toarray(), w, f"{what}: bond length matrix", event="velocity")


def w_assemble(rng, obs):
    sm, rs, scs, ihs = gen.sample_pair(rng, couple_dup=False)
    judge(obs, sm, rs, rng, what="fresh")
    factor, shift = 1.0, np.zeros(3)
    ops = []
    for _ in range(int(rng.integers(0, 4))):
        op = str(rng.choice(["rescale", "kpoint", "reset", "disk"]))
        ops.append(op)
        if op == "rescale":
            factor = float(rng.uniform(0.5, 30))
            sm.rescale_ham(factor)
        elif op == "kpoint" and not np.any(shift):
            shift = gen.kpoint(rng)
            sm.set_k_point(shift)
        elif op == "reset":
            sm.reset_array()
            factor, shift = 1.0, np.zeros(3)
        elif op == "disk":
            with tempfile.TemporaryDirectory() as tmp:
                d = os.path.join(tmp, "sample")
                if rng.random() < 0.5:       # the folder holds an earlier state
                    pre = tb.Sample(*scs, *ihs)
                    if rng.random() < 0.7:
                        pre.rescale_ham(float(rng.uniform(2, 5)))
                    else:
                        pre.init_orb_pos()
                    pre.save_array(d)
                    obs.ev("folders_reused")
                sm.save_array(d)
                old = sm
                sm = tb.Sample(*scs, *ihs)
                if rng.random() < 0.5:
                    sm.rescale_ham(3.0)      # arrays that loading has to replace
                if rng.random() < 0.4:       # a first reader changes its arrays
                    sm.load_array(d)
                    if rng.random() < 0.3:
                        sm.set_k_point(gen.kpoint(rng))
                    sm.rescale_ham(float(rng.uniform(2, 5)))
                    for name in ("orb_pos", "dr", "hop_v"):
                        getattr(sm, name)[:] += 1
                    sm = tb.Sample(*scs, *ihs)
                sm.load_array(d)
            for name in ("orb_eng", "orb_pos", "hop_i", "hop_j", "hop_v", "dr"):
                a, b = getattr(old, name), getattr(sm, name)
                obs.check(np.array_equal(a, b), f"{name} differs after saving and loading",
                          event="round_trips")
            obs.check(sm.rescale == old.rescale, "scaling factor after saving and loading")
        judge(obs, sm, rs, rng, factor, shift, f"after {ops}")
    obs.note(supercells=len(scs), orbitals=rs.n, couplings=[len(t[2]) for t in rs.inter], ops=ops)
    obs.feed(rs.eng())
    obs.hard(True)


def w_first(rng, obs):
    """Any method may come first: the arrays it needs are set up on demand."""
    sm, rs, scs, ihs = gen.sample_pair(rng, couple_dup=False, max_orb=40)
    two = tb.Sample(*scs, *ihs)
    k, f = gen.kpoint(rng), float(rng.uniform(2, 9))
    three = np.array([gen.kpoint(rng) for _ in range(2)])

    def arrays(s):
        s.init_orb_eng(), s.init_orb_pos(), s.init_hop()
        return [s.rescale, s.orb_eng, s.orb_pos, s.hop_v]
    calls = {"csr": lambda s: [s.build_ham_csr().toarray()],
             "dxy": lambda s: [x.toarray() for x in s.build_dxy_csr()],
             "ham_dxy": lambda s: s.build_ham_dxy(),
             "ham_dxy_safe": lambda s: s.build_ham_dxy(algo="safe", sort_col=True),
             "bands": lambda s: s.calc_bands(three, echo_details=False),
             "dos": lambda s: s.calc_dos(three, echo_details=False, e_step=0.1),
             "rescale": lambda s: [s.rescale_ham(f), *arrays(s)][1:],
             "k": lambda s: [s.set_k_point(k), *arrays(s)][1:],
             "field": lambda s: [s.set_magnetic_field(f), *arrays(s)][1:]}
    name = str(rng.choice(sorted(calls)))
    obs.note(first=name, orbitals=rs.n)
    arrays(two)
    got, want = calls[name](sm), calls[name](two)
    obs.check(len(got) == len(want), f"number of results of {name}")
    for a, b in zip(got, want):
        obs.close(a, b, f"{name} as the first call", tol=1e-10, event="first_calls")
    if name != "field":
        judge(obs, sm, rs, rng, sm.rescale, k if name == "k" else np.zeros(3), f"after {name}")
    obs.hard()


def w_fold(rng, obs):
    """A fully periodic sample has the bands of the primitive cell, folded."""
    pc, rc = gen.small_cell(rng, norb=int(rng.integers(1, 4)), dims=int(rng.integers(1, 4)))
    dim, _, _ = gen.super_spec(rng, rc, extra=1, vac_frac=0.0)
    if np.prod(dim) * rc.n > 160:
        return
    sm = tb.Sample(tb.SuperCell(pc, dim, (True, True, True)))
    k = gen.kpoint(rng)
    _, bands = sm.calc_bands(np.array([k]), echo_details=False)
    want = []
    for c in np.ndindex(*dim):
        kk = (k + np.array(c)) / np.array(dim)
        want.append(np.linalg.eigvalsh(rc.ham(kk)))
    obs.close(np.sort(bands[0]), np.sort(np.concatenate(want)), "folded spectrum",
              event="folded")
    obs.note(dim=dim, orbitals=rc.n)
    obs.feed(bands)
    obs.hard(np.prod(dim) > 1)


def w_closure(rng, obs):
    """What is not a sample is refused."""
    pcs = [gen.small_cell(rng, norb=2, dims=1)[0] for _ in range(2)]
    scs = [tb.SuperCell(p, (3, 3, 3)) for p in pcs]
    third = tb.SuperCell(pcs[0], (4, 3, 3))
    ih = tb.SCInterHopping(scs[0], scs[1])
    ih.add_hopping((0, 0, 0), 0, 0, 1.0)
    obs.raises(tb.SampleVoidError, lambda: tb.Sample(), "empty sample", event="closure")
    for args in ((scs[0], ih), (scs[1], ih), (scs[0], third, ih)):
        obs.raises(tb.SampleClosureError, lambda: tb.Sample(*args),
                   "coupling to a supercell outside the sample", event="closure")
    obs.raises(tb.SampleCompError, lambda: tb.Sample(scs[0], pcs[0]), "not a supercell",
               event="closure")
    void = tb.SCInterHopping(scs[0], scs[1])
    sm = tb.Sample(*scs, void)
    obs.raises(tb.InterHopVoidError, sm.init_hop, "coupling without terms", event="closure")
    obs.note(closure=True, c=float(rng.random()))
    obs.hard()


def w_large(rng, obs):
    """Tens of thousands of orbitals, past the reach of small index types."""
    parts, mats, start, total = [], [], [], 0
    kf = gen.kpoint(rng)
    kcart = None
    nsup = int(rng.integers(1, 3))
    for s in range(nsup):
        pc, rc = gen.small_cell(rng, norb=int(rng.integers(1, 4)), dims=2, connected=True)
        want = int(rng.choice([33000, 66000])) if s == 0 else 500
        m = [2 * x + 1 for x in gen.max_rn(rc)]
        a = max(m[0], int(np.sqrt(want / rc.n) * rng.uniform(0.3, 3)))
        dim = (a, max(m[1], want // (rc.n * a) + 1), m[2])
        pbc = tuple(bool(x) for x in rng.integers(0, 2, 3))
        shape = dim + (rc.n,)
        vac = []
        if rng.random() < 0.5:
            vac = [tuple(int(rng.integers(x)) for x in shape) for _ in range(int(rng.integers(1, 60)))]
        sc = tb.SuperCell(pc, dim, pbc, vacancies=vac or None)
        there = np.ones(shape, bool)
        for v in vac:
            there[v] = False
        index = np.cumsum(there.reshape(-1)).reshape(shape) - 1
        n = int(there.sum())
        grid = np.stack(np.meshgrid(*[np.arange(x) for x in shape], indexing="ij"), -1)
        ids = grid[there]
        pos = (rc.pos()[ids[:, 3]] + ids[:, :3]) @ rc.lat + rc.origin
        sclat = rc.lat * np.array(dim, float)[:, None]
        if kcart is None:
            kcart = kf @ (2 * np.pi * np.linalg.inv(sclat).T)
        rows, cols, vals, phase = [], [], [], []
        for (r, i, j), e in rc.hop.items():
            src = grid[..., i, :3].reshape(-1, 3)
            t = src + np.array(r)
            cell = t // np.array(dim)
            w = t - cell * np.array(dim)
            ok = np.all((cell == 0) | np.array(pbc), axis=1)
            ok &= there[src[:, 0], src[:, 1], src[:, 2], i] & there[w[:, 0], w[:, 1], w[:, 2], j]
            src, w = src[ok], w[ok]
            rows.append(index[src[:, 0], src[:, 1], src[:, 2], i])
            cols.append(index[w[:, 0], w[:, 1], w[:, 2], j])
            vals.append(np.full(len(src), complex(e)))
            d = (rc.pos()[j] + np.array(r) - rc.pos()[i]) @ rc.lat
            phase.append(np.full(len(src), np.exp(1j * d @ kcart)))
        parts.append((sc, n, pos, index, there, ids, np.array([o[1] for o in rc.orbs])[ids[:, 3]]))
        mats.append([np.concatenate(x) for x in (rows, cols, vals, phase)])
        start.append(total)
        total += n
        obs.close(sc.get_orb_pos(), pos, "positions", event="large_orbitals")
        pick = rng.integers(0, n, 40)
        obs.check(np.array_equal(sc.orb_id_sc2pc_array(pick), ids[pick]), "sc to pc, many orbitals")
        obs.check(np.array_equal(sc.orb_id_pc2sc_array(ids[pick].astype(np.int32)), pick),
                  "pc to sc, many orbitals")
    args = [p[0] for p in parts]
    r, c, v, p = [np.concatenate([np.asarray(m[q]) + (start[s] if q < 2 else 0)
                                  for s, m in enumerate(mats)]) for q in range(4)]
    if nsup == 2:
        ih = tb.SCInterHopping(args[0], args[1])
        one = {}
        for _ in range(10):
            i, j = int(rng.integers(parts[0][1])), int(rng.integers(parts[1][1]))
            if (i, j) not in one:
                one[(i, j)] = gen.cplx(rng)
                ih.add_hopping((0, 0, 0), i, j, one[(i, j)])
        args.append(ih)
        for (i, j), e in one.items():
            ph = np.exp(1j * (parts[1][2][j] - parts[0][2][i]) @ kcart)
            r = np.append(r, [i, start[1] + j])
            c = np.append(c, [start[1] + j, i])
            v = np.append(v, [e, np.conj(e)])
            p = np.append(p, [ph, np.conj(ph)])
    sm = tb.Sample(*args)
    eng = np.concatenate([q[6] for q in parts])
    dia = np.arange(total)
    h0 = csr_matrix((np.append(v, eng), (np.append(r, dia), np.append(c, dia))), shape=(total,) * 2)
    hk = csr_matrix((np.append(v * p, eng), (np.append(r, dia), np.append(c, dia))), shape=(total,) * 2)
    obs.check(sm.num_orb == total, "number of orbitals")
    got = sm.build_ham_csr()
    obs.check(got.shape == h0.shape and abs(got - h0).max() < 1e-9,
              f"sparse Hamiltonian of {total} orbitals", event="large_h")
    obs.check(abs(sm.set_ham_csr(kf) - hk).max() < 1e-7, f"Hamiltonian of {total} orbitals at k",
              event="large_h")
    ip, ix, h, dx, dy = sm.build_ham_dxy(orb_eng_cutoff=0.0)
    cond = csr_matrix((h, ix, ip), shape=(total,) * 2)
    obs.check(abs(cond - h0).max() < 1e-9, f"conductivity arrays of {total} orbitals", event="large_h")
    obs.note(orbitals=total, bonds=len(r))
    obs.hard()


WORKLOADS = {"defaults": W(defaults.c06, 15, 150),
             "assemble": W(w_assemble, 300, 4000), "first": W(w_first, 60, 600), "fold": W(w_fold, 200, 2500),
             "large": W(w_large, 12, 60),
             "closure": W(w_closure, 10, 50)}
