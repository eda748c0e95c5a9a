"""C05: the bond network of supercells against brute force."""
import numpy as np

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random primitive cells (hoppings up to second cells, complex), supercell sizes "
        "from the minimum allowed up, every boundary condition, vacancies, displaced "
        "orbitals, extra/overwritten hoppings, trimming and couplings between supercells. "
        "Non-trivial: at least one bond crosses the boundary or is cut, or a modification is "
        "present. Oracle: brute-force enumeration of every bond of every cell.")
REQUIRED = ["bonds_compared", "wrapped_bonds", "cut_bonds", "modified", "trimmed",
            "inter_bonds", "size_rejections", "requested", "defaults"]


def judge_hop(obs, hop, rs, what):
    hi, hj, hv, dr = hop
    obs.check(np.issubdtype(np.asarray(hi).dtype, np.integer)
              and np.issubdtype(np.asarray(hj).dtype, np.integer),
              f"{what}: bond indices are not integers")
    pos = rs.pos()
    got, worst, dup = ref.live_edges(hi, hj, hv, dr, pos, rs.sc_lat)
    obs.check(worst < 1e-6, f"{what}: a bond vector is not the difference of its ends "
              f"up to a supercell translation (off by {worst:g})")
    obs.check(dup == 0, f"{what}: {dup} bonds are listed twice")
    want = rs.edges()
    obs.ev("wrapped_bonds", sum(1 for k in want if k[2] != (0, 0, 0)))
    ref.compare_edges(obs, got, want, what)
    return want


def scribbled(rng, obs, sc, rs):
    """What the caller does to returned arrays is not seen by later callers."""
    if rng.random() < 0.6:
        return
    for a in (sc.get_orb_pos(), sc.get_orb_eng()) + tuple(sc.get_hop()):
        a += 1
    obs.close(sc.get_orb_pos(), rs.pos(), "positions asked for again")
    obs.close(sc.get_orb_eng(), rs.eng(), "energies asked for again")
    judge_hop(obs, sc.get_hop(), rs, "bonds asked for again")


def w_network(rng, obs):
    rmax = 2 if rng.random() < 0.2 else 1
    pc, rc = gen.small_cell(rng, rmax=rmax, dims=(1 if rmax == 2 else int(rng.integers(1, 4))))
    dim, pbc, vac = gen.super_spec(rng, rc)
    mod = gen.pos_modifier(rng) if rng.random() < 0.4 else None
    form = [tuple, list, np.array, lambda x: tuple(int(y) for y in x)]
    fd, fp = form[rng.integers(4)](dim), form[rng.integers(4)](pbc)
    if dim[2] == 1 and rng.random() < 0.3:
        fd = fd[:2]
    if not pbc[2] and rng.random() < 0.3:
        fp = fp[:2]
    sc = tb.SuperCell(pc, fd, fp, vacancies=vac, orb_pos_modifier=mod)
    rs = ref.RefSuper(rc, dim, pbc, vac, pos_mod=mod)
    if rs.n == 0:
        return
    obs.close(sc.sc_lat_vec, rs.sc_lat, "supercell lattice")
    obs.close(sc.get_orb_pos(), rs.pos(), "positions")
    obs.close(sc.get_orb_eng(), rs.eng(), "energies")
    want = judge_hop(obs, sc.get_hop(), rs, "bonds")
    full = int(np.prod(dim)) * len(rc.hop)
    obs.ev("cut_bonds", full - len(want))
    scribbled(rng, obs, sc, rs)
    # displaced orbitals may be switched on and off again
    if rng.random() < 0.5:
        rs.pos_mod = gen.pos_modifier(rng) if rng.random() < 0.6 else None
        sc.set_orb_pos_modifier(rs.pos_mod)
        obs.close(sc.get_orb_pos(), rs.pos(), "positions after replacing the displacement")
        judge_hop(obs, sc.get_hop(), rs, "bonds after replacing the displacement")
    # extra and overwritten bonds
    if rng.random() < 0.6 and rs.n > 1:
        edges = rs.edges()
        pairs = {(k[0], k[1]) for k in edges}
        chosen = {}
        style = int(rng.integers(3))     # only overwrite, only new, both
        for _ in range(int(rng.integers(1, 5))):
            if edges and style != 1 and rng.random() < 0.7:
                i, j, n = list(edges)[int(rng.integers(len(edges)))]
                if sum(1 for k in edges if (k[0], k[1]) == (i, j)) != 1:
                    continue
            elif style != 0:
                i, j = int(rng.integers(rs.n)), int(rng.integers(rs.n))
                n = gen.rn(rng, 1) if rng.random() < 0.4 else (0, 0, 0)
                if (i, j) in pairs or (n == (0, 0, 0) and i == j):
                    continue
            else:
                continue
            if frozenset((i, j)) in chosen:
                continue
            chosen[frozenset((i, j))] = (n, i, j, gen.cplx(rng))
        for n, i, j, e in chosen.values():
            sc.add_hopping(n, i, j, e)
            rs.hop_mod.append((n, i, j, e))
            obs.ev("modified")
        judge_hop(obs, sc.get_hop(), rs, "bonds after modification")
        if chosen and rng.random() < 0.5:       # the same bond with another energy
            n, i, j, _ = rs.hop_mod.pop(int(rng.integers(len(rs.hop_mod))))
            e = gen.cplx(rng)
            rs.hop_mod.append((n, i, j, e))
            if rng.random() < 0.3:
                sc.add_hopping(tuple(-x for x in n), j, i, np.conj(e))
            else:
                sc.add_hopping(n, i, j, e)
            judge_hop(obs, sc.get_hop(), rs, "bonds after a second modification")
            scribbled(rng, obs, sc, rs)
        for f, exc in ((lambda: sc.add_hopping((0, 0, 0), 0, 0, 1.0), tb.SCHopDiagonalError),
                       (lambda: sc.add_hopping((0, 0, 0), 0, rs.n, 1.0), tb.SCOrbIndexError),
                       (lambda: sc.add_hopping((0, 0, 0), -1, 0, 1.0), tb.SCOrbIndexError),
                       (lambda: sc.add_hopping((0,), 0, 1, 1.0), tb.CellIndexLenError)):
            obs.raises(exc, f, "illegal extra bond")
        judge_hop(obs, sc.get_hop(), rs, "bonds after rejected modifications")
    # trimming dangling orbitals, with or without modifications
    if rng.random() < 0.5:
        edges = rs.edges()
        deg = np.zeros(rs.n, int)
        for (i, j, n) in edges:
            deg[i] += 1
        dead = [i for i in range(rs.n) if deg[i] <= 1]
        sc.trim()
        keep = [i for i in range(rs.n) if deg[i] > 1]
        obs.check(sc.num_orb_sc == len(keep), f"{rs.n - sc.num_orb_sc} orbitals trimmed, "
                  f"want {len(dead)}")
        if keep:
            new = {o: n for n, o in enumerate(keep)}
            r2 = ref.RefSuper(rc, dim, pbc, rs.vac | {rs.ids[i] for i in dead},
                              [(n, new[i], new[j], e) for n, i, j, e in rs.hop_mod
                               if i in new and j in new], rs.pos_mod)
            judge_hop(obs, sc.get_hop(), r2, "bonds after trimming")
            obs.ev("trimmed", len(dead))
            obs.close(sc.get_orb_pos(), r2.pos(), "positions after trimming")
            rs = r2
    obs.note(orbitals=rc.n, dim=dim, pbc=pbc, vac=len(rs.vac), mods=len(rs.hop_mod),
             displaced=rs.pos_mod is not None, bonds=len(want))
    obs.hard(full != len(want) or any(k[2] != (0, 0, 0) for k in want) or rs.hop_mod)


def w_requested(rng, obs):
    """Whatever else connects the two ends, a bond that was asked for is there as asked."""
    pc, rc = gen.small_cell(rng, dims=int(rng.integers(1, 4)))
    dim, pbc, vac = gen.super_spec(rng, rc)
    mod = gen.pos_modifier(rng) if rng.random() < 0.4 else None
    sc = tb.SuperCell(pc, dim, pbc, vacancies=vac, orb_pos_modifier=mod)
    rs = ref.RefSuper(rc, dim, pbc, vac, pos_mod=mod)
    edges = list(rs.edges())
    if not edges:
        return
    i, j, n = edges[int(rng.integers(len(edges)))]
    if rng.random() < 0.7:
        n = gen.rn(rng, 1, int(rng.integers(1, 4)))
    if i == j and n == (0, 0, 0):
        return
    e = gen.cplx(rng)
    sc.add_hopping(n, i, j, e)
    got, worst, _ = ref.live_edges(*sc.get_hop(), rs.pos(), rs.sc_lat)
    obs.check(worst < 1e-6, "bond vector")
    obs.check((i, j, n) in got and (j, i, tuple(-x for x in n)) in got
              and abs(got[(i, j, n)] - e) < 1e-12,
              f"bond {(i, j, n)} = {e} asked for, found {got.get((i, j, n))}", event="requested")
    obs.note(bond=(i, j, n), dim=dim, pbc=pbc)
    obs.hard((i, j, n) not in edges)


def w_size(rng, obs):
    """A supercell too small for its hoppings is refused."""
    pc, rc = gen.small_cell(rng, rmax=int(rng.integers(1, 4)))
    m = gen.max_rn(rc)
    dim = [2 * x + 1 for x in m]
    d = int(rng.integers(3))
    obs.note(minimum=dim, direction=d)
    bad = [tuple(dim)[:1], tuple(dim) + (1,)][int(rng.integers(2))]
    obs.raises(tb.SCDimLenError, lambda: tb.SuperCell(pc, bad), f"size {bad}")
    pbc = [(True,), (True,) * 4][int(rng.integers(2))]
    obs.raises(tb.PBCLenError, lambda: tb.SuperCell(pc, tuple(dim), pbc), f"boundary conditions {pbc}")
    bare = tb.PrimitiveCell(rc.lat, unit=tb.NM)
    obs.raises(tb.PCOrbEmptyError, lambda: tb.SuperCell(bare, tuple(dim)), "supercell of a cell without orbitals")
    bare.add_orbital((0.1, 0.2, 0.3), 1.0)
    obs.raises(tb.PCHopEmptyError, lambda: tb.SuperCell(bare, tuple(dim)), "supercell of a cell without hoppings")
    bare.add_hopping((1, 0, 0), 0, 0, 1.0)
    sc = tb.SuperCell(bare, (3, 1, 1))
    obs.check(sc.num_orb_sc == 3, "a refused supercell left the cell locked")
    obs.hard(m[d] > 0)
    if m[d] == 0:
        return
    small = list(dim)
    small[d] -= int(rng.integers(1, dim[d]))
    obs.raises(tb.SCDimSizeError, lambda: tb.SuperCell(pc, tuple(small)),
               f"size {small} with hoppings up to {m}", event="size_rejections")
    if np.prod(dim) * rc.n < 400:
        sc = tb.SuperCell(pc, tuple(dim), (True, True, True))
        judge_hop(obs, sc.get_hop(), ref.RefSuper(rc, dim, (1, 1, 1)), "smallest supercell")


def w_inter(rng, obs):
    """Couplings between two supercells."""
    pcs = [gen.small_cell(rng, norb=int(rng.integers(1, 3)), dims=int(rng.integers(2, 4))) for _ in range(2)]
    rss, scs = [], []
    for pc, rc in pcs:
        dim, pbc, vac = gen.super_spec(rng, rc, extra=1)
        mod = gen.pos_modifier(rng) if rng.random() < 0.3 else None
        rs = ref.RefSuper(rc, dim, pbc, vac, pos_mod=mod)
        rss.append(rs)
        scs.append(tb.SuperCell(pc, dim, pbc, vacancies=vac, orb_pos_modifier=mod))
    if not rss[0].n or not rss[1].n:
        return
    ih = tb.SCInterHopping(*scs)
    terms = {}
    for _ in range(int(rng.integers(1, 15))):
        i, j = int(rng.integers(rss[0].n)), int(rng.integers(rss[1].n))
        n = gen.rn(rng, int(rng.choice([1, 1, 4])), int(rng.integers(2, 4)))
        e = gen.cplx(rng)
        ih.add_hopping(n if rng.random() < 0.7 or n[2] else n[:2], i, j, e)
        terms[(n, i, j)] = complex(e)
    if rng.random() < 0.4:      # asked before, result changed, one term replaced
        for a in ih.get_hop():
            a += 1
        if rng.random() < 0.6:
            (n, i, j) = list(terms)[int(rng.integers(len(terms)))]
            terms[(n, i, j)] = complex(gen.cplx(rng))
            ih.add_hopping(n, i, j, terms[(n, i, j)])
    hi, hj, hv, dr = ih.get_hop()
    obs.check(len(hi) == len(terms), "number of coupling terms")
    pb, pk = rss[0].pos(), rss[1].pos()
    left = dict(terms)
    for i, j, v, d in zip(hi, hj, hv, dr):
        f = (d - (pk[int(j)] - pb[int(i)])) @ np.linalg.inv(rss[1].sc_lat)
        n = tuple(int(x) for x in np.rint(f))
        obs.check(np.max(np.abs(f - n)) < 1e-6, "coupling vector")
        key = (n, int(i), int(j))
        obs.check(key in left and abs(left[key] - v) < 1e-12,
                  f"coupling {key} = {v}, want {left.get(key)}", event="inter_bonds")
        del left[key]
    obs.note(n=[r.n for r in rss], terms=len(terms))
    obs.hard(any(k[0] != (0, 0, 0) for k in terms))
    dup = len({(i, j) for _, i, j in terms}) != len(terms)
    if dup:
        obs.raises(ValueError, lambda: ih.get_hop(check_dup=True), "duplicate couplings")
    else:
        ih.get_hop(check_dup=True)


WORKLOADS = {"defaults": W(defaults.c05, 15, 150),
             
    "network": W(w_network, 450, 6000),
    "requested": W(w_requested, 80, 1000),
    "size": W(w_size, 80, 800),
    "inter": W(w_inter, 100, 1000),
}
