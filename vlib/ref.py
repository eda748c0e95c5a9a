"""Independent reference models (numpy only; nothing of tbplas is used)."""
import itertools

import numpy as np


class RefCell:
    """A tight-binding model as a user writes it down: orbitals, and a set of
    directed terms <i,0|H|j,R>, each stored together with its adjoint."""

    def __init__(self, lat, origin=(0, 0, 0)):
        self.lat = np.array(lat, float)      # rows, nm
        self.origin = np.array(origin, float)
        self.orbs = []                       # [pos(3), energy, label]
        self.hop = {}                        # (R, i, j) -> complex, both directions

    def copy(self):
        c = RefCell(self.lat, self.origin)
        c.orbs = [list(o) for o in self.orbs]
        c.hop = dict(self.hop)
        return c

    # --- edits
    def add_orb(self, pos, eng, label="X"):
        pos = tuple(float(x) for x in pos)
        if len(pos) == 2:
            pos += (0.0,)
        self.orbs.append([pos, float(eng), label])

    def add_hop(self, rn, i, j, e):
        rn = tuple(int(x) for x in rn)
        if len(rn) == 2:
            rn += (0,)
        e = complex(e)
        self.hop[(rn, i, j)] = e
        self.hop[(tuple(-x for x in rn), j, i)] = e.conjugate()

    def del_hop(self, rn, i, j):
        rn = tuple(int(x) for x in rn)
        if len(rn) == 2:
            rn += (0,)
        del self.hop[(rn, i, j)]
        m = (tuple(-x for x in rn), j, i)
        if m in self.hop:
            del self.hop[m]

    def has(self, rn, i, j):
        rn = tuple(int(x) for x in rn)
        if len(rn) == 2:
            rn += (0,)
        return (rn, i, j) in self.hop

    def remove_orbs(self, idx):
        idx = set(int(i) for i in idx)
        keep = [i for i in range(len(self.orbs)) if i not in idx]
        new = {o: n for n, o in enumerate(keep)}
        self.orbs = [self.orbs[i] for i in keep]
        self.hop = {(r, new[i], new[j]): e for (r, i, j), e in self.hop.items()
                    if i in new and j in new}

    def degree(self):
        """Number of undirected terms at each orbital (a self term counts twice)."""
        d = [0] * len(self.orbs)
        for (r, i, j) in self.hop:
            d[i] += 1
        return d

    # --- observables
    @property
    def n(self):
        return len(self.orbs)

    @property
    def num_terms(self):
        return len(self.hop) // 2

    def pos(self):
        return np.array([o[0] for o in self.orbs], float).reshape(-1, 3)

    def eng(self):
        return np.array([o[1] for o in self.orbs], float)

    def pos_nm(self):
        return self.pos() @ self.lat + self.origin

    def ham(self, k, convention=1, eng=True):
        n = self.n
        h = np.zeros((n, n), complex)
        tau = self.pos()
        if eng:
            h[np.arange(n), np.arange(n)] = self.eng()
        for (r, i, j), e in self.hop.items():
            d = np.array(r, float)
            if convention == 1:
                d = d + tau[j] - tau[i]
            h[i, j] += e * np.exp(2j * np.pi * np.dot(k, d))
        return h


def from_prim_cell(pc):
    """Read a live primitive cell through its public accessors."""
    c = RefCell(pc.lat_vec, pc.origin)
    for o in pc.orbitals:
        c.add_orb(o.position, o.energy, o.label)
    for rn, terms in pc.hoppings.items():
        for (i, j), e in terms.items():
            c.add_hop(rn, i, j, e)
    return c


class RefSuper:
    """Brute-force supercell: (cell, dim, pbc, vacancies, modifier)."""
    def __init__(self, cell, dim, pbc, vac=(), hop_mod=(), pos_mod=None):
        self.cell, self.dim, self.pbc = cell, tuple(dim), tuple(bool(x) for x in pbc)
        self.vac = set(tuple(int(x) for x in v) for v in vac)
        self.hop_mod, self.pos_mod = list(hop_mod), pos_mod
        self.ids = [(a, b, c, o) for a in range(dim[0]) for b in range(dim[1])
                    for c in range(dim[2]) for o in range(cell.n)
                    if (a, b, c, o) not in self.vac]
        self.index = {x: n for n, x in enumerate(self.ids)}
        self.sc_lat = cell.lat * np.array(dim, float)[:, None]

    @property
    def n(self):
        return len(self.ids)

    def eng(self):
        return np.array([self.cell.orbs[x[3]][1] for x in self.ids])

    def pos(self):
        tau = self.cell.pos()
        p = np.array([(tau[x[3]] + np.array(x[:3])) @ self.cell.lat + self.cell.origin
                      for x in self.ids]).reshape(-1, 3)
        if self.pos_mod is not None:
            self.pos_mod(p)
        return p

    def edges(self):
        """{(i, j, n): value}; n = how many supercells the bond crosses.  Both
        directions of every bond."""
        out = {}
        for cell in itertools.product(*[range(d) for d in self.dim]):
            for (r, i, j), e in self.cell.hop.items():
                src = self.index.get(cell + (i,))
                if src is None:
                    continue
                t = [cell[d] + r[d] for d in range(3)]
                n = [t[d] // self.dim[d] for d in range(3)]
                if any(n[d] != 0 and not self.pbc[d] for d in range(3)):
                    continue
                w = tuple(t[d] - n[d] * self.dim[d] for d in range(3))
                dst = self.index.get(w + (j,))
                if dst is None:
                    continue
                k = (src, dst, tuple(n))
                out[k] = out.get(k, 0) + e
        for rn, i, j, e in self.hop_mod:
            out[(i, j, tuple(rn))] = complex(e)
            out[(j, i, tuple(-x for x in rn))] = complex(e).conjugate()
        return out


def edges_to_ham(edges, eng, pos, sc_lat, kcart=None):
    """Hamiltonian with Bloch phase exp(i k.dr) for Cartesian k."""
    n = len(eng)
    h = np.zeros((n, n), complex)
    h[np.arange(n), np.arange(n)] = eng
    for (i, j, m), v in edges.items():
        ph = 1.0
        if kcart is not None:
            dr = pos[j] - pos[i] + np.array(m) @ sc_lat
            ph = np.exp(1j * np.dot(kcart, dr))
        h[i, j] += v * ph
    return h


def live_edges(hop_i, hop_j, hop_v, dr, pos, sc_lat, obs=None, tol=1e-7):
    """Turn reduced (i, j, v, dr) arrays into the same dictionary, and return
    the largest mismatch between dr and a lattice translation of the bond."""
    out, worst, dup = {}, 0.0, 0
    inv = np.linalg.inv(sc_lat)
    for i, j, v, d in zip(hop_i, hop_j, hop_v, dr):
        i, j = int(i), int(j)
        f = (d - (pos[j] - pos[i])) @ inv
        m = np.rint(f).astype(int)
        worst = max(worst, float(np.max(np.abs(f - m))))
        m = tuple(int(x) for x in m)
        for key, val in (((i, j, m), complex(v)),
                         ((j, i, tuple(-x for x in m)), complex(v).conjugate())):
            if key in out:
                dup += 1
            out[key] = out.get(key, 0) + val
    return out, worst, dup


def compare_edges(obs, got, want, what, tol=1e-10, drop_zero=False):
    obs.ev("bonds_compared", len(want))
    if drop_zero:
        got = {k: v for k, v in got.items() if abs(v) > 0}
        want = {k: v for k, v in want.items() if abs(v) > 0}
    miss = [k for k in want if k not in got]
    extra = [k for k in got if k not in want]
    obs.check(not miss, lambda: f"{what}: missing bonds (i, j, cell) {miss[:4]} "
              f"({len(miss)} of {len(want)}); unexpected {extra[:4]}")
    obs.check(not extra, lambda: f"{what}: unexpected bonds {extra[:4]} ({len(extra)})")
    for k in want:
        if abs(got[k] - want[k]) > tol * max(1.0, abs(want[k])):
            obs.check(False, f"{what}: bond {k} has value {got[k]} want {want[k]}")
    obs.ev("bond_values", len(want))


class RefSample:
    """Sample = supercells + couplings [(ibra, iket, {(n, i, j): v})]."""
    def __init__(self, supers, inter=()):
        self.supers, self.inter = list(supers), list(inter)
        self.start = np.cumsum([0] + [s.n for s in self.supers])

    @property
    def n(self):
        return int(self.start[-1])

    def eng(self):
        return np.concatenate([s.eng() for s in self.supers])

    def pos(self):
        return np.concatenate([s.pos() for s in self.supers])

    def bonds(self):
        """Arrays i, j, v, dr of every bond in both directions."""
        i, j, v, d = [], [], [], []
        for s, st in zip(self.supers, self.start):
            p = s.pos()
            for (a, b, m), e in s.edges().items():
                i.append(st + a)
                j.append(st + b)
                v.append(e)
                d.append(p[b] - p[a] + np.array(m) @ s.sc_lat)
        for ib, ik, terms in self.inter:
            pb, pk = self.supers[ib].pos(), self.supers[ik].pos()
            for (m, a, b), e in terms.items():
                dr = pk[b] - pb[a] + np.array(m) @ self.supers[ik].sc_lat
                x, y = self.start[ib] + a, self.start[ik] + b
                i += [x, y]
                j += [y, x]
                v += [e, np.conj(e)]
                d += [dr, -dr]
        return (np.array(i, dtype=np.int64), np.array(j, dtype=np.int64),
                np.array(v, dtype=complex), np.array(d, dtype=float).reshape(-1, 3))

    def ham(self, kfrac=None, kcart=None, weight=None):
        """Dense H(k); weight: function of (i, j, dr) multiplying the bonds."""
        i, j, v, d = self.bonds()
        if kfrac is not None:
            kcart = np.asarray(kfrac) @ (2 * np.pi * np.linalg.inv(self.supers[0].sc_lat).T)
        if kcart is not None:
            v = v * np.exp(1j * d @ kcart)
        if weight is not None:
            v = v * weight(i, j, d)
        h = np.zeros((self.n, self.n), complex)
        np.add.at(h, (i, j), v)
        h[np.arange(self.n), np.arange(self.n)] += self.eng()
        return h
