"""C09: cell transformations keep the crystal."""
import itertools

import numpy as np

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random cells (1-4 orbitals, complex hoppings, off-zero origins, border positions) "
        "extended, reshaped to random integer lattices (also skewed and left-handed), cut into "
        "slabs, rotated and shifted, merged with couplings; chains of transformations. "
        "Non-trivial: the new cell holds more than one old cell or the geometry moves. Oracle: "
        "every orbital keeps its chemical environment (neighbour identity, bond vector, "
        "energy), orbital count = volume ratio, folded spectrum equal; brute-force neighbour "
        "lists.")
REQUIRED = ["extended", "reshaped", "environments", "folded", "spiral", "merged", "neighbors",
            "slabs", "defaults", "couplings", "tiny_distances"]


def envs(pc):
    """For each orbital the list of (label of neighbour, bond vector, energy)."""
    pos = np.array([o.position for o in pc.orbitals]) @ pc.lat_vec
    out = [[] for _ in pc.orbitals]
    for r, terms in pc.hoppings.items():
        for (i, j), e in terms.items():
            d = pos[j] + np.array(r) @ pc.lat_vec - pos[i]
            out[i].append((pc.orbitals[j].label, d, complex(e)))
            out[j].append((pc.orbitals[i].label, -d, complex(e).conjugate()))
    return out


def same_env(obs, got, want, what, rot=None, tol=1e-7):
    obs.check(len(got) == len(want), f"{what}: {len(got)} bonds, want {len(want)}",
              event="environments")
    if not want:
        return
    free = list(range(len(want)))
    for lab, d, e in got:
        for n in free:
            wl, wd, we = want[n]
            if rot is not None:
                wd = rot @ wd
            if wl == lab and np.max(np.abs(wd - d)) < tol and abs(we - e) < 1e-10:
                free.remove(n)
                break
        else:
            obs.check(False, f"{what}: bond to {lab} along {d} with {e} is not in the "
                      f"original crystal")


def coset_spectrum(rc, m, k):
    """Bands of the primitive cell folded by the integer matrix m at reshaped k."""
    inv_t = np.linalg.inv(m).T
    n = int(round(abs(np.linalg.det(m))))
    reps, lim = [], int(np.max(np.abs(m))) * 3 + 1
    for c in sorted(itertools.product(range(-lim, lim + 1), repeat=3),
                    key=lambda x: sum(map(abs, x))):
        f = np.array(c) @ inv_t
        if all(np.max(np.abs((f - g) - np.rint(f - g))) > 1e-6 for g in reps):
            reps.append(f)
            if len(reps) == n:
                break
    return np.sort(np.concatenate([np.linalg.eigvalsh(rc.ham(k @ inv_t + g)) for g in reps]))


def judge_crystal(obs, cell, pc, rc, what, rot=None, count=None):
    """cell must hold the same crystal as pc."""
    base = {o.label: e for o, e in zip(pc.orbitals, envs(pc))}
    eng = {o.label: o.energy for o in pc.orbitals}
    pos0 = {o.label: np.array(o.position) for o in pc.orbitals}
    if count is not None:
        obs.check(cell.num_orb == count, f"{what}: {cell.num_orb} orbitals, want {count}")
    for o, e in zip(cell.orbitals, envs(cell)):
        obs.check(abs(o.energy - eng[o.label]) < 1e-12, f"{what}: energy of {o.label}")
        same_env(obs, e, base[o.label], f"{what}: orbital {o.label}", rot)
        if rot is None:
            cart = np.array(o.position) @ cell.lat_vec + cell.origin - pc.origin
            f = cart @ np.linalg.inv(pc.lat_vec) - pos0[o.label]
            obs.check(np.max(np.abs(f - np.rint(f))) < 1e-7,
                      f"{what}: orbital {o.label} off its lattice site by {f}")
    spots = np.array([o.position for o in cell.orbitals])
    labels = [o.label for o in cell.orbitals]
    for a in range(len(labels)):
        for b in range(a):
            if labels[a] == labels[b]:
                d = spots[a] - spots[b]
                obs.check(np.max(np.abs(d - np.rint(d))) > 1e-6,
                          f"{what}: orbital {labels[a]} occurs twice")


def make(rng, **kw):
    kw.setdefault("norb", int(rng.integers(1, 4)))
    pc, rc = gen.small_cell(rng, connected=bool(rng.random() < 0.6), **kw)
    if rng.random() < 0.4:      # positions on cell borders and special points
        for i in range(rc.n):
            p = tuple(float(x) for x in rng.choice([0.0, 0.5, 1 / 3, 2 / 3, 0.25], 3))
            if any(np.allclose(p, o[0]) for o in rc.orbs):
                continue
            pc.set_orbital(i, position=p)
            rc.orbs[i][0] = p
    if rng.random() < 0.15:     # several orbitals of one atom
        for i in range(1, rc.n):
            pc.set_orbital(i, position=tuple(rc.orbs[0][0]))
            rc.orbs[i][0] = tuple(rc.orbs[0][0])
    if rng.random() < 0.15:     # orbitals far outside their cell
        for i in range(rc.n):
            p = tuple(float(x) for x in np.array(rc.orbs[i][0]) + rng.integers(-4, 5, 3))
            pc.set_orbital(i, position=p)
            rc.orbs[i][0] = p
    if rng.random() < 0.3:
        pc.extended = float(rng.choice([2.0, 3.0, 12.0]))
    return pc, rc


def int_matrix(rng, lim, maxdet=8):
    while True:
        if rng.random() < 0.3:
            m = np.eye(3, dtype=int)
            m[:2, :2] = rng.integers(-lim, lim + 1, (2, 2))
        else:
            m = rng.integers(-lim, lim + 1, (3, 3))
        d = abs(np.linalg.det(m))
        if 0.5 < d < maxdet + 0.5:
            return m


def w_extend(rng, obs):
    pc, rc = make(rng)
    dim = tuple(int(x) for x in rng.choice([1, 1, 2, 3], 3))
    before = ref.from_prim_cell(pc)
    form = dim if rng.random() < 0.7 or dim[2] > 1 else dim[:2]
    ext = gen.primed(rng, pc, lambda: tb.extend_prim_cell(pc, form))
    rs = ref.RefSuper(rc, dim, (1, 1, 1))
    obs.close(ext.lat_vec, rs.sc_lat, "extended lattice")
    obs.close(ext.orb_pos_nm, rs.pos(), "extended positions")
    obs.close([o.energy for o in ext.orbitals], rs.eng(), "extended energies")
    judge_crystal(obs, ext, pc, rc, f"extended by {dim}", count=rs.n)
    want = rs.edges()
    live = ref.from_prim_cell(ext)
    got = {(i, j, r): e for (r, i, j), e in live.hop.items()}
    ref.compare_edges(obs, got, want, "extended bonds")
    k = gen.kpoint(rng)
    _, b = ext.calc_bands(np.array([k]), echo_details=False)
    obs.close(np.sort(b[0]), coset_spectrum(rc, np.diag(dim), k), "folded bands", event="folded")
    obs.check(ref.from_prim_cell(pc).hop == before.hop and pc.num_orb == before.n,
              "the original cell was changed")
    obs.close(ext.extended, pc.extended * np.prod(dim), "recorded volume ratio")
    obs.ev("extended")
    obs.raises((ValueError, tb.CoordLenError), lambda: tb.extend_prim_cell(pc, (0, 1, 1)),
               "zero dimension")
    obs.note(dim=dim, orbitals=rc.n)
    obs.hard(np.prod(dim) > 1)


def w_reshape(rng, obs):
    pc, rc = make(rng)
    lim = int(rng.choice([1, 1, 2, 3, 4]))
    m = int_matrix(rng, lim)
    via = rng.random() < 0.3
    kw = {}
    if rng.random() < 0.3:
        kw["delta"] = float(rng.choice([1e-3, 0.03, 0.2]))
        if rng.random() < 0.5:
            kw["pos_tol"] = float(rng.choice([1e-6, 1e-4]))
    delta = kw.get("delta", 0.01)
    if via:
        cell = gen.primed(rng, pc, lambda: tb.make_hetero_layer(pc, m @ pc.lat_vec, **kw))
    else:
        cell = gen.primed(rng, pc, lambda: tb.reshape_prim_cell(pc, m.astype(float), **kw))
    n = int(round(abs(np.linalg.det(m))))
    obs.close(cell.lat_vec, m @ (rc.lat), "reshaped lattice")
    judge_crystal(obs, cell, pc, rc, f"reshaped by {m.tolist()}", count=n * rc.n)
    p = np.array([o.position for o in cell.orbitals])
    obs.check(np.all(p > -delta - 1e-6) and np.all(p < 1 - delta + 1e-6),
              f"orbital outside the reshaped cell moved by {delta}")
    k = gen.kpoint(rng)
    _, b = cell.calc_bands(np.array([k]), echo_details=False)
    obs.close(np.sort(b[0]), coset_spectrum(rc, m, k), "folded bands", event="folded")
    obs.close(cell.extended, n * pc.extended, "recorded volume ratio")
    obs.ev("reshaped")
    obs.note(m=m.tolist(), orbitals=rc.n)
    obs.hard(n > 1 or lim > 1)
    # chain: extend what was reshaped
    if rng.random() < 0.3 and n * rc.n < 10:
        two = tb.extend_prim_cell(cell, (2, 1, 1))
        judge_crystal(obs, two, pc, rc, "reshaped, then extended", count=2 * n * rc.n)


def w_slab(rng, obs):
    """Non-periodic cuts: a vacuum layer keeps exactly the bonds inside."""
    pc, rc = make(rng, dims=3)
    n = int(rng.integers(1, 4))
    ax = int(rng.integers(3))
    pc2, r2 = pc, rc
    ext_dim = [1, 1, 1]
    ext_dim[ax] = n
    ext = gen.primed(rng, pc, lambda: tb.extend_prim_cell(pc, tuple(ext_dim)))
    pbc = [True] * 3
    pbc[ax] = False
    ext.apply_pbc(tuple(pbc))
    rs = ref.RefSuper(rc, ext_dim, pbc)
    got = {(i, j, r): e for (r, i, j), e in ref.from_prim_cell(ext).hop.items()}
    ref.compare_edges(obs, got, rs.edges(), f"slab open along {ax}")
    obs.ev("slabs")
    obs.note(axis=ax, layers=n, orbitals=rc.n)
    obs.hard()


def w_spiral(rng, obs):
    pc, rc = make(rng)
    ang = float(rng.uniform(-7, 7))
    center = rng.uniform(-1, 1, 3) if rng.random() < 0.5 else np.zeros(3)
    shift = float(rng.uniform(-1, 1)) if rng.random() < 0.6 else 0.0
    old = np.array([o.position for o in pc.orbitals]) @ pc.lat_vec + pc.origin
    old_env, lat0, org0 = envs(pc), pc.lat_vec.copy(), pc.origin.copy()
    tb.spiral_prim_cell(pc, angle=ang, center=center, shift=shift)
    c, s = np.cos(ang), np.sin(ang)
    rot = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    new = np.array([o.position for o in pc.orbitals]) @ pc.lat_vec + pc.origin
    obs.close(new, (old - center) @ rot.T + center + [0, 0, shift], "rotated positions",
              event="spiral")
    obs.close(pc.orb_pos_nm, new, "positions in nm")
    obs.close(pc.lat_vec, lat0 @ rot.T, "rotated lattice")
    for a, b in zip(envs(pc), old_env):
        same_env(obs, a, b, "rotated bonds", rot)
    k = gen.kpoint(rng)
    _, b = pc.calc_bands(np.array([k]), echo_details=False)
    obs.close(np.sort(b[0]), np.linalg.eigvalsh(rc.ham(k)), "bands of the rotated cell", event="folded")
    obs.note(angle=ang, shift=shift)
    obs.hard()


def w_merge(rng, obs):
    n = int(rng.integers(1, 4))
    lat = gen.lattice(rng)
    cells, refs = [], []
    for a in range(n):
        pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 4)), rmax=1, lat=lat,
                               origin=rng.uniform(-2, 2, 3))
        if n > 1 and a and rng.random() < 0.2:      # a layer of isolated orbitals
            while rc.hop:
                r, i, j = next(iter(rc.hop))
                pc.remove_hopping(r, i, j)
                rc.del_hop(r, i, j)
        cells.append(pc)
        refs.append(rc)
    start = np.cumsum([0] + [r.n for r in refs])
    pos = [r.pos_nm() for r in refs]
    total = ref.RefCell(refs[0].lat, refs[0].origin)
    for r, p in zip(refs, pos):
        f = (p - refs[0].origin) @ np.linalg.inv(refs[0].lat)
        for q, o in zip(f, r.orbs):
            total.add_orb(tuple(q), o[1], o[2])
    for r, s in zip(refs, start):
        for (rr, i, j), e in r.hop.items():
            total.hop[(rr, i + int(s), j + int(s))] = e
    hops = []
    for _ in range(int(rng.integers(0, 3)) if n > 1 else 0):
        a, b = (int(x) for x in rng.choice(n, 2, replace=False))
        ih = tb.PCInterHopping(cells[a], cells[b])
        mine = {}
        for _ in range(int(rng.integers(1, 6))):
            i, j = int(rng.integers(refs[a].n)), int(rng.integers(refs[b].n))
            r, e = gen.rn(rng, int(rng.choice([1, 1, 4]))), gen.cplx(rng)
            ih.add_hopping(r[:2] if r[2] == 0 and rng.random() < 0.3 else r, i, j, e)
            mine[(r, i, j)] = e
        bad = [(1,), (0, 0, 0, 1)][int(rng.integers(2))]
        obs.raises(tb.CellIndexLenError, lambda: ih.add_hopping(bad, 0, 0, 1.0), f"coupling to {bad}")
        obs.raises(tb.CellIndexLenError, lambda: ih.get_hopping(bad, 0, 0), f"coupling to {bad}")
        for _ in range(int(rng.integers(0, 3))):    # the list of couplings edited
            if not mine:
                break
            r, i, j = list(mine)[int(rng.integers(len(mine)))]
            x = rng.random()
            if x < 0.4:
                obs.check(ih.remove_hopping(r, i, j), "coupling not found")
                del mine[(r, i, j)]
            elif x < 0.7:
                m = tuple(-y for y in r)
                obs.check(ih.remove_rn(m) == any(k[0] == m for k in mine),
                          "couplings to the opposite cell")
                mine = {k: e for k, e in mine.items() if k[0] != m}
            else:
                obs.check(ih.remove_rn(r), "couplings not found")
                mine = {k: e for k, e in mine.items() if k[0] != r}
        obs.check(ih.num_hop == len(mine), f"{ih.num_hop} couplings, want {len(mine)}")
        for (r, i, j), e in mine.items():
            got, found = ih.get_hopping(r, i, j)
            obs.check(found and got == e, f"coupling {(r, i, j)} is {got}, want {e}",
                      event="couplings")
            total.add_hop(r, i + int(start[a]), j + int(start[b]), e)
        hops.append(ih)
    args = cells + hops
    if rng.random() < 0.5:
        args = hops + cells
    merged = gen.primed(rng, cells[0], lambda: tb.merge_prim_cell(*args)) if not hops else tb.merge_prim_cell(*args)
    obs.close(merged.orb_pos_nm, np.concatenate(pos), "positions of the merged cell")
    obs.close([o.energy for o in merged.orbitals], [o[1] for o in total.orbs], "energies")
    got = {(i, j, r): e for (r, i, j), e in ref.from_prim_cell(merged).hop.items()}
    want = {(i, j, r): e for (r, i, j), e in total.hop.items()}
    ref.compare_edges(obs, got, want, "merged bonds")
    k = gen.kpoint(rng)
    if total.hop:
        _, b = merged.calc_bands(np.array([k]), echo_details=False)
        obs.close(np.sort(b[0]), np.linalg.eigvalsh(total.ham(k)), "bands of the merged cell", event="folded")
    ext = [float(rng.choice([1.0, 1.0, 2.0, 4.0])) for _ in cells]
    for c, e in zip(cells, ext):
        c.extended = e
    got = tb.merge_prim_cell(*cells).extended
    obs.close(got, ext[0] if len(set(ext)) == 1 else 1.0,
              f"recorded extension of cells with {ext}")
    obs.ev("merged")
    off = np.array(lat)
    off[int(rng.integers(3)), int(rng.integers(3))] += float(rng.choice([-1, 1])) * 0.05
    bad = gen.cell_pair(rng, norb=1, lat=lat * 1.1 if rng.random() < 0.3 else off)[0]
    obs.raises(ValueError, lambda: tb.merge_prim_cell(*cells, bad), "lattice mismatch")
    obs.raises(ValueError, lambda: tb.merge_prim_cell(), "nothing to merge")
    if hops:
        obs.raises(ValueError, lambda: tb.merge_prim_cell(hops[0].pc_bra, hops[0]),
                   "coupling to a missing cell")
        obs.raises(ValueError, lambda: tb.merge_prim_cell(hops[0].pc_ket, hops[0]),
                   "coupling to a missing cell")
    obs.note(cells=n, couplings=len(hops))
    obs.hard(n > 1)


def w_neighbors(rng, obs):
    kind = int(rng.integers(3))
    if kind == 0:
        a = b = gen.small_cell(rng)[0]
        pa = pb = a.orb_pos_nm
        lat = a.lat_vec
        second = None if rng.random() < 0.5 else a
    elif kind == 1:
        a, b = gen.small_cell(rng)[0], gen.small_cell(rng)[0]
        pa, pb, lat, second = a.orb_pos_nm, b.orb_pos_nm, b.lat_vec, b
    else:
        ms = []
        for _ in range(2):
            pc, rc = gen.small_cell(rng, norb=2, dims=2)
            dim, pbc, vac = gen.super_spec(rng, rc, extra=0, vac_frac=0.2)
            ms.append((tb.SuperCell(pc, dim, pbc, vacancies=vac),
                       ref.RefSuper(rc, dim, pbc, vac)))
        if not all(m[1].n for m in ms):
            return
        (a, ra), (b, rb) = ms
        pa, pb, lat, second = ra.pos(), rb.pos(), rb.sc_lat, b
    if kind < 2 and rng.random() < 0.3:       # nearly coincident, coincident
        f = tuple(rng.uniform(0, 1, 3))
        d = 10.0 ** rng.uniform(-4, -1.5) * np.eye(3)[int(rng.integers(3))]
        for c in {id(a): a, id(b): b}.values():
            c.add_orbital(f)
        p = np.array([o.position for o in a.orbitals])[-1] @ a.lat_vec + a.origin
        a.add_orbital_cart(p + d, unit=tb.NM)
        pa, pb = a.orb_pos_nm, b.orb_pos_nm
    mx = [int(x) for x in rng.integers(0, 3, 3)]
    cut = float(rng.uniform(0.05, 0.8))
    find = lambda: tb.find_neighbors(a, second, a_max=mx[0], b_max=mx[1], c_max=mx[2], max_distance=cut)
    if rng.random() < 0.3:                     # asked before, with an orbital somewhere else
        move = kind < 2 and rng.random() < 0.7
        if move:
            i = int(rng.integers(a.num_orb))
            p = a.orbitals[i].position
            a.set_orbital(i, position=(p[0] + 0.3, p[1] + 0.2, p[2]))
        first = find()
        if isinstance(first, list):
            first.clear()
        if move:
            a.set_orbital(i, position=p)
        obs.ev("asked_again")
    got = find()
    want = {}
    for r in itertools.product(*[range(-m, m + 1) for m in mx]):
        d = pb[None] + np.array(r) @ lat - pa[:, None]
        dist = np.linalg.norm(d, axis=2)
        for i, j in zip(*np.nonzero(dist < cut + 1e-9)):
            want[(r, (int(i), int(j)))] = (d[i, j], dist[i, j])
    seen = set()
    last = -1.0
    for t in got:
        key = (tuple(int(x) for x in t.rn), tuple(int(x) for x in t.pair))
        obs.check(key in want, f"{key} at {t.distance} is no neighbour within {cut}",
                  event="neighbors")
        obs.check(key not in seen, f"{key} listed twice")
        seen.add(key)
        obs.close(t.rij, want[key][0], "displacement")
        obs.close(t.distance, want[key][1], "distance")
        obs.check(t.distance > 0 and t.distance >= last, "order of the neighbours")
        last = t.distance
    if any(1e-9 < v[1] < 0.02 for v in want.values()):
        obs.ev("tiny_distances")
    miss = [k for k, v in want.items() if k not in seen and 1e-9 < v[1] < cut - 1e-9]
    obs.check(not miss, f"missed neighbours {miss[:3]}")
    obs.note(kind=kind, found=len(got), cut=cut)
    obs.hard(len(got) > 0)


WORKLOADS = {"defaults": W(defaults.c09, 15, 150),
             "extend": W(w_extend, 120, 1500), "reshape": W(w_reshape, 250, 3000),
             "slab": W(w_slab, 60, 800), "spiral": W(w_spiral, 80, 1000),
             "merge": W(w_merge, 120, 1500), "neighbors": W(w_neighbors, 120, 1500)}
