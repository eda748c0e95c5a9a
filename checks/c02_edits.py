"""C02: edit histories of a primitive cell against a shadow model."""
import numpy as np

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random histories of 10-60 edits (add/set/remove orbitals and hoppings, "
        "fractional and Cartesian, matrices of hoppings, trim, boundary "
        "conditions, lattice resets), legal and illegal, interleaved with "
        "observations of everything a cell shows. Values are often drawn from a "
        "small set so that an entry is overwritten by a similar one. Non-trivial: "
        "the history contains at least one observation between two edits. "
        "Oracle: shadow model replaying the same history; a rejected edit must "
        "leave everything as it was.")
REQUIRED = ["observations", "rejections", "edits", "defaults"]


class History:
    def __init__(self, rng, obs):
        self.rng, self.obs = rng, obs
        lat = gen.lattice(rng)
        self.origin = rng.uniform(-1, 1, 3) if rng.random() < 0.5 else np.zeros(3)
        self.pc = tb.PrimitiveCell(lat, origin=self.origin, unit=tb.ANG)
        self.rc = ref.RefCell(lat * 0.1, self.origin * 0.1)
        self.log = []

    def rec(self, name, *a):
        self.log.append((name,) + a)
        self.obs.ev("edits")
        self.obs.ev("op_" + name)

    # ------------------------------------------------------------ observation
    def observe(self, full=True):
        o, pc, rc, rng = self.obs, self.pc, self.rc, self.rng
        o.ev("observations")
        tail = f"after {self.log[-4:]}"
        o.check(pc.num_orb == rc.n, lambda: f"num_orb {pc.num_orb} != {rc.n} {tail}")
        o.check(pc.num_hop == rc.num_terms,
                lambda: f"num_hop {pc.num_hop} != {rc.num_terms} {tail}")
        o.close(pc.lat_vec, rc.lat, f"lattice {tail}")
        o.close(pc.origin, rc.origin, f"origin {tail}")
        early = pc.dr_nm if rng.random() < 0.5 else None    # before anything else is read
        if rc.n:
            o.close(pc.orb_eng, rc.eng(), f"on-site energies stale or wrong {tail}")
            o.close(pc.orb_pos, rc.pos(), f"positions stale or wrong {tail}")
            o.close(pc.orb_pos_nm, rc.pos_nm(), f"Cartesian positions {tail}")
            o.close(pc.orb_pos_ang, rc.pos_nm() * 10, f"Cartesian positions {tail}")
            for i in rng.permutation(rc.n)[:3]:
                orb = pc.get_orbital(int(i))
                o.check(orb.energy == rc.orbs[i][1] and orb.label == rc.orbs[i][2],
                        lambda: f"orbital {i} is {orb}, want {rc.orbs[i]} {tail}")
            o.check([x.label for x in pc.orbitals] == [x[2] for x in rc.orbs],
                    lambda: f"orbital order changed {tail}")
        # hoppings: arrays
        ind, eng = pc.hop_ind, pc.hop_eng
        o.check(len(ind) == rc.num_terms and len(eng) == rc.num_terms,
                lambda: f"hopping arrays have {len(ind)} rows, want {rc.num_terms} {tail}")
        seen = set()
        dr = pc.dr_nm if early is None else early
        o.close(pc.dr_ang, dr * 10, f"bond vectors in Angstrom {tail}")
        o.close(pc.dr @ rc.lat if len(dr) else dr, dr, f"bond vectors in fractions {tail}")
        for row, e, d in zip(ind, eng, dr):
            key = (tuple(int(x) for x in row[:3]), int(row[3]), int(row[4]))
            adj = (tuple(-x for x in key[0]), key[2], key[1])
            o.check(key in rc.hop, lambda: f"hopping array shows {key} which was "
                    f"removed or never entered {tail}")
            o.check(key not in seen and adj not in seen,
                    lambda: f"term {key} listed twice {tail}")
            seen.add(key)
            o.check(abs(e - rc.hop[key]) < 1e-12,
                    lambda: f"hopping {key} is {e}, want {rc.hop[key]} {tail}")
            p = rc.pos()
            want = (p[key[2]] + np.array(key[0]) - p[key[1]]) @ rc.lat
            o.close(d, want, f"bond vector of {key} {tail}")
        # hoppings: queries in both directions
        keys = list(rc.hop)
        for n in rng.permutation(len(keys))[:6]:
            r, i, j = keys[n]
            got = pc.get_hopping(r, i, j)
            o.check(abs(got - rc.hop[keys[n]]) < 1e-12,
                    lambda: f"query {keys[n]} gives {got}, want {rc.hop[keys[n]]} {tail}")
        if rc.n:
            r, i, j = gen.rn(rng), int(rng.integers(rc.n)), int(rng.integers(rc.n))
            if not rc.has(r, i, j) and not (r == (0, 0, 0) and i == j):
                o.raises(tb.PCHopNotFoundError, lambda: pc.get_hopping(r, i, j),
                         f"query of absent {(r, i, j)}", event="absent_queries")
        if full and rc.n and rc.hop:
            k = gen.kpoint(rng)
            pc.sync_array()
            h = np.zeros((rc.n, rc.n), dtype=np.complex128)
            pc.set_ham_dense(k, h, 1)
            o.close(h, rc.ham(k, 1), f"H(k) {tail}", event="hk_compared")
            o.close(pc.set_ham_csr(k, 2).toarray(), rc.ham(k, 2), f"sparse H(k) {tail}",
                    event="hk_compared")

    # ------------------------------------------------------------ legal edits
    def edit(self):
        rng, pc, rc = self.rng, self.pc, self.rc
        ops = ["add_orb"] * 3 + ["add_cart", "reset", "trim", "pbc"]
        if rc.n:
            ops += ["add_hop"] * 8 + ["set_orb"] * 4 + ["set_cart", "rem_orb", "dict"]
            if rc.n > 3:
                ops += ["rem_orbs"] * 2
        if rc.hop:
            ops += ["update_hop"] * 4 + ["rem_hop"] * 3
        op = str(rng.choice(ops))
        lab = f"L{len(self.log)}"
        if op == "add_orb":
            p = tuple(float(x) for x in rng.uniform(-1, 2, int(rng.integers(2, 4))))
            e = gen.real(rng)
            pc.add_orbital(p, energy=e, label=lab)
            rc.add_orb(p, e, lab)
            self.rec(op, p, e)
        elif op == "add_cart":
            p = rng.uniform(-3, 3, 3)
            unit = float(rng.choice([tb.ANG, tb.NM, 0.37]))
            pc.add_orbital_cart(p, unit=unit, energy=1.5, label=lab)
            rc.add_orb(np.linalg.solve(rc.lat.T, p * unit - rc.origin), 1.5, lab)
            self.rec(op)
        elif op == "set_orb":
            i = int(rng.integers(rc.n))
            kw = {}
            if rng.random() < 0.7:
                kw["energy"] = rc.orbs[i][1] = gen.real(rng)
            if rng.random() < 0.3:
                kw["position"] = rc.orbs[i][0] = tuple(float(x) for x in
                                                      rng.choice([0, 0.5, -1, -2, 0.25], 3))
            if rng.random() < 0.2:
                kw["label"] = rc.orbs[i][2] = lab if rng.random() < 0.7 else ""
            pc.set_orbital(i, **kw)
            self.rec(op, i, kw)
        elif op == "set_cart":
            i = int(rng.integers(rc.n))
            p = rng.uniform(-3, 3, 3)
            unit = float(rng.choice([tb.ANG, tb.NM, 0.37]))
            kw = {}
            if rng.random() < 0.3:
                kw["energy"] = rc.orbs[i][1] = gen.real(rng)
            if rng.random() < 0.3:
                kw["label"] = rc.orbs[i][2] = lab if rng.random() < 0.7 else ""
            pc.set_orbital_cart(i, p, unit=unit, **kw)
            rc.orbs[i][0] = tuple(np.linalg.solve(rc.lat.T, p * unit - rc.origin))
            self.rec(op, i, unit)
        elif op == "rem_orb":
            i = int(rng.integers(rc.n))
            pc.remove_orbital(i)
            rc.remove_orbs([i])
            self.rec(op, i)
        elif op == "rem_orbs":
            m = int(rng.integers(1, rc.n // 2 + 1))
            idx = [int(x) for x in rng.choice(rc.n, m, replace=bool(rng.random() < 0.3))]
            pc.remove_orbitals(np.array(idx) if rng.random() < 0.3 else idx)
            rc.remove_orbs(idx)
            self.rec(op, idx)
        elif op == "add_hop":
            r, i, j = gen.rn(rng), int(rng.integers(rc.n)), int(rng.integers(rc.n))
            if r == (0, 0, 0) and i == j:
                return
            e = gen.cplx(rng)
            pc.add_hopping(r, i, j, e)
            rc.add_hop(r, i, j, e)
            self.rec(op, r, i, j, e)
        elif op == "update_hop":
            r, i, j = list(rc.hop)[int(rng.integers(len(rc.hop)))]
            old = rc.hop[(r, i, j)]
            e = {-1: -2.0, -2: -1.0}.get(old, gen.cplx(rng))
            if rng.random() < 0.4:
                e = -1.0 if rng.random() < 0.5 else -2.0
            pc.add_hopping(r, i, j, e)
            rc.add_hop(r, i, j, e)
            self.rec(op, r, i, j, e)
        elif op == "rem_hop":
            r, i, j = list(rc.hop)[int(rng.integers(len(rc.hop)))]
            pc.remove_hopping(r, i, j)
            rc.del_hop(r, i, j)
            self.rec(op, r, i, j)
        elif op == "dict":
            hd = tb.HopDict(rc.n)
            todo = {}
            for _ in range(int(rng.integers(1, 3))):
                r = gen.rn(rng, 1)
                m = np.zeros((rc.n, rc.n), complex)
                for _ in range(int(rng.integers(1, 4))):
                    i, j = int(rng.integers(rc.n)), int(rng.integers(rc.n))
                    if r == (0, 0, 0) and i >= j:
                        continue
                    m[i, j] = gen.nonzero(gen.cplx, rng)
                if tuple(-x for x in r) in todo:
                    continue
                hd[r] = m
                todo[r] = m
            pc.add_hopping_dict(hd)
            for r, m in todo.items():
                for i, j in zip(*np.nonzero(m)):
                    rc.add_hop(r, int(i), int(j), m[i, j])
            if rng.random() < 0.5:
                pc.add_hopping_dict(hd)     # using it again changes nothing
            self.rec(op, sorted(todo))
        elif op == "trim":
            if rng.random() < 0.6 or rc.n == 0:
                return
            d = rc.degree()
            pc.trim()
            rc.remove_orbs([i for i in range(rc.n) if d[i] <= 1])
            self.rec(op)
        elif op == "pbc":
            if rng.random() < 0.7:
                return
            pbc = tuple(bool(x) for x in rng.integers(0, 2, 3))
            pc.apply_pbc(pbc)
            rc.hop = {k: e for k, e in rc.hop.items()
                      if all(pbc[d] or k[0][d] == 0 for d in range(3))}
            self.rec(op, pbc)
        elif op == "reset":
            unit = float(rng.choice([tb.ANG, tb.ANG, tb.NM, 0.37]))
            lat = gen.lattice(rng) if rng.random() < 0.8 else None
            org = rng.uniform(-1, 1, 3) if rng.random() < 0.6 else None
            fix = bool(rng.random() < 0.6)
            cart = rc.pos_nm()
            pc.reset_lattice(lat, origin=org, unit=unit, fix_orb=fix)
            if lat is not None:
                rc.lat = lat * unit
            if org is not None:
                rc.origin = org * unit
            if fix and rc.n:
                f = np.linalg.solve(rc.lat.T, (cart - rc.origin).T).T
                for o, p in zip(rc.orbs, f):
                    o[0] = tuple(p)
            self.rec(op, fix)

    # ---------------------------------------------------------- illegal edits
    def too_large(self):
        n = self.rc.n
        hd = tb.HopDict(n + 1)
        m = np.zeros((n + 1, n + 1), complex)
        m[:n, :n] = gen.real(self.rng) + 3.0
        m[int(self.rng.integers(n + 1)), n] = 1.0
        for r in ((1, 0, 0), (0, 0, 0)) if self.rng.random() < 0.5 else ((0, 1, 0),):
            hd[r] = m * (1.0 - np.eye(n + 1) * (r == (0, 0, 0)))
        if not any(np.any(x[:, n]) for x in hd.hoppings.values()):
            hd[(0, 1, 0)] = m
        return hd

    def with_diagonal(self, i):
        n = self.rc.n
        hd = tb.HopDict(n)
        hd[(1, 0, 0)] = np.full((n, n), 3.5)
        hd[(0, 0, 0)][i, i] = 1.0
        return hd

    def illegal(self):
        rng, pc, rc, o = self.rng, self.pc, self.rc, self.obs
        n = rc.n
        bad = n + int(rng.integers(0, 3))
        cands = [
            ("remove_orbital out of range", tb.PCOrbIndexError,
             lambda: pc.remove_orbital(bad)),
            ("remove_orbitals partly out of range", tb.PCOrbIndexError,
             lambda: pc.remove_orbitals([0, bad] if n else [bad])),
            ("set_orbital out of range", tb.PCOrbIndexError,
             lambda: pc.set_orbital(bad, energy=9.0)),
            ("get_orbital out of range", tb.PCOrbIndexError,
             lambda: pc.get_orbital(bad)),
            ("hopping from absent orbital", tb.PCOrbIndexError,
             lambda: pc.add_hopping((1, 0, 0), bad, 0, 1.0)),
            ("hopping to absent orbital", tb.PCOrbIndexError,
             lambda: pc.add_hopping((1, 0, 0), 0, bad, 1.0)),
            ("hopping from negative orbital", tb.PCOrbIndexError,
             lambda: pc.add_hopping((1, 0, 0), -1, 0, 1.0)),
            ("hopping to negative orbital", tb.PCOrbIndexError,
             lambda: pc.add_hopping((1, 0, 0), 0, -1 - int(rng.integers(0, 2)), 1.0)),
            ("position of wrong length", tb.OrbPositionLenError,
             lambda: pc.add_orbital((0.0, 0.1, 0.2, 0.3))),
            ("position of wrong length", tb.OrbPositionLenError,
             lambda: pc.add_orbital_cart((0.0,))),
            ("reset to non-3x3 lattice", tb.LatVecError,
             lambda: pc.reset_lattice(np.eye(2))),
            ("cell of a non-3x3 lattice", tb.LatVecError,
             lambda: tb.PrimitiveCell(np.eye(int(rng.choice([2, 4]))), unit=tb.NM)),
            ("cell of a bad origin", ValueError,
             lambda: tb.PrimitiveCell(np.eye(3), np.zeros(int(rng.choice([1, 2, 4]))), unit=tb.NM)),
            ("reset to bad origin", ValueError,
             lambda: pc.reset_lattice(np.eye(3) * 7, origin=np.zeros(2))),
            ("boundary conditions of wrong length", ValueError,
             lambda: pc.apply_pbc((True, False))),
            ("matrices of hoppings larger than the cell", tb.PCOrbIndexError,
             lambda: pc.add_hopping_dict(self.too_large())),
        ]
        if n:
            i = int(rng.integers(n))
            cands += [
                ("diagonal hopping", tb.PCHopDiagonalError,
                 lambda: pc.add_hopping((0, 0, 0), i, i, 1.0)),
                ("cell index of wrong length", tb.CellIndexLenError,
                 lambda: pc.add_hopping((1,), 0, i, 1.0)),
                ("set position of wrong length", tb.OrbPositionLenError,
                 lambda: pc.set_orbital(i, position=(0.1,), energy=77.0)),
                ("removing absent hopping", tb.PCHopNotFoundError,
                 lambda: pc.remove_hopping((7, 7, 7), 0, i)),
                ("set position of wrong length", tb.OrbPositionLenError,
                 lambda: pc.set_orbital_cart(i, position=(0.1,), energy=77.0)),
                ("matrices of hoppings with an on-site term", tb.PCHopDiagonalError,
                 lambda: pc.add_hopping_dict(self.with_diagonal(i))),
                ("removing negative orbital with others", tb.PCOrbIndexError,
                 lambda: pc.remove_orbitals([-n - 1, 0])),
            ]
        what, exc, f = cands[int(rng.integers(len(cands)))]
        o.raises(exc, f, f"{what} (history {self.log[-3:]})")
        self.log.append(("rejected", what))
        self.observe(full=bool(rng.random() < 0.5))


def w_history(rng, obs):
    h = History(rng, obs)
    n = int(rng.integers(10, 60))
    density = rng.choice([0.1, 0.4, 0.9])
    between = 0
    for step in range(n):
        if rng.random() < 0.15:
            h.illegal()
        else:
            h.edit()
        if rng.random() < density:
            h.observe(full=bool(rng.random() < 0.4))
            between += step < n - 1
    h.observe()
    obs.note(steps=n, last=[str(x) for x in h.log[:12]])
    obs.hard(between > 0)


def w_negative_removal(rng, obs):
    """Whatever is made of an index counted from the end, orbitals and hopping
    terms must stay consistent with each other."""
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(2, 6)))
    i = -int(rng.integers(1, rc.n + 1))
    obs.note(n=rc.n, index=i, terms=rc.num_terms)
    obs.feed(np.array(list(rc.hop.values())))
    obs.hard()
    try:
        pc.remove_orbital(i)
        rc.remove_orbs([rc.n + i])
        obs.ev("negative_accepted")
    except tb.PCOrbIndexError:
        obs.ev("negative_rejected")
    now = ref.from_prim_cell(pc)
    obs.check(now.n == rc.n, "number of orbitals")
    obs.check(now.hop == rc.hop, lambda: "hopping terms do not belong to the orbitals "
              f"left after removing orbital {i}: {sorted(now.hop)[:6]} want "
              f"{sorted(rc.hop)[:6]}")


WORKLOADS = {"defaults": W(defaults.c02, 15, 150),
             
    "history": W(w_history, 700, 12000),
    "negative_removal": W(w_negative_removal, 60, 600),
}
