"""C03: derived objects never go stale behind the user's back."""
import numpy as np

from vlib import gen, ref
from vlib.gen import tb
from vlib.runner import W
from checks.c05_network import judge_hop

RULE = ("Random webs: one or two primitive cells, one to five supercells, couplings, one "
        "to five samples; random histories of forbidden edits, unlock-edit-update cycles at every "
        "level, sample array modifications (rescaling, fields, k-points) and reads. Non-trivial: "
        "at least one unlock-edit-update cycle. Oracle: every forbidden edit is refused and "
        "changes nothing; after an update every derived object equals the one a fresh "
        "construction would give (brute-force reference), and is locked again.")
REQUIRED = ["forbidden_edits", "update_cycles", "samples_compared", "relocked", "refused_constructions",
            "partial_samples", "crowded"]


class Web:
    def __init__(self, rng, obs):
        self.rng, self.obs = rng, obs
        self.pcs = []
        for _ in range(int(rng.integers(1, 3))):
            pc, rc = gen.small_cell(rng, norb=int(rng.integers(2, 4)), dims=2,
                                    connected=True)
            self.pcs.append([pc, rc])
        self.scs = []      # [sc, pcindex, dim, pbc, vac set, mods, posmod]
        crowd = rng.random() < 0.15          # many objects derived from one
        for n in range(int(rng.integers(3, 6) if crowd else rng.integers(1, 4))):
            ip = int(rng.integers(len(self.pcs)))
            pc, rc = self.pcs[ip]
            dim = (4, 4, 1)
            pbc = tuple(bool(x) for x in rng.integers(0, 2, 3))
            vac = set(gen.super_spec(rng, rc, extra=0, vac_frac=rng.choice([0, 0.1]))[2])
            vac = {v for v in vac if v[2] == 0}
            sc = tb.SuperCell(pc, dim, pbc, vacancies=list(vac) or None)
            self.scs.append([sc, ip, dim, pbc, vac, [], None])
        self.inter = []    # [ih, ibra, iket, {terms}]
        if crowd:
            self.obs.ev("crowded")
        if len(self.scs) > 1:
            a, b = rng.choice(len(self.scs), 2, replace=False)
            ih = tb.SCInterHopping(self.scs[a][0], self.scs[b][0])
            terms = {}
            for _ in range(4):
                self._inter_add(ih, terms, int(a), int(b))
            self.inter.append([ih, int(a), int(b), terms])
        self.samples = []
        for _ in range(int(rng.integers(3, 6) if rng.random() < 0.15 else rng.integers(1, 3))):
            args = [s[0] for s in self.scs] + [x[0] for x in self.inter]
            self.samples.append(tb.Sample(*args))

    def _inter_add(self, ih, terms, a, b):
        rng = self.rng
        i = int(rng.integers(self.ref(a).n))
        j = int(rng.integers(self.ref(b).n))
        if any(k[1] == i and k[2] == j for k in terms):
            return
        n, e = gen.rn(rng, 1, 2), gen.cplx(rng)
        ih.add_hopping(n, i, j, e)
        terms[(n, i, j)] = complex(e)

    def ref(self, i):
        sc, ip, dim, pbc, vac, mods, pm = self.scs[i]
        return ref.RefSuper(self.pcs[ip][1], dim, pbc, vac, mods, pm)

    # ----------------------------------------------------------- comparisons
    def check_sample(self, sm, what):
        o = self.obs
        refs = [self.ref(i) for i in range(len(self.scs))]
        start = np.cumsum([0] + [r.n for r in refs])
        sm.init_orb_eng()
        sm.init_orb_pos()
        sm.init_hop()
        o.check(sm.num_orb == start[-1], f"{what}: num_orb")
        o.close(sm.rescale, 1.0, f"{what}: rescale")
        o.close(sm.orb_eng, np.concatenate([r.eng() for r in refs]), f"{what}: energies")
        pos = np.concatenate([r.pos() for r in refs])
        o.close(sm.orb_pos, pos, f"{what}: positions")
        ham = np.zeros((start[-1],) * 2, complex)
        for r, s in zip(refs, start):
            for (i, j, n), v in r.edges().items():
                ham[s + i, s + j] += v
        for ih, a, b, terms in self.inter:
            for (n, i, j), v in terms.items():
                ham[start[a] + i, start[b] + j] += v
                ham[start[b] + j, start[a] + i] += np.conj(v)
        ham[np.arange(len(ham)), np.arange(len(ham))] += sm.orb_eng
        o.close(sm.build_ham_csr().toarray(), ham, f"{what}: Hamiltonian of the sample",
                event="samples_compared")

    def check_all(self, what):
        for i in range(len(self.scs)):
            r = self.ref(i)
            sc = self.scs[i][0]
            self.obs.close(sc.get_orb_eng(), r.eng(), f"{what}: supercell energies")
            self.obs.close(sc.get_orb_pos(), r.pos(), f"{what}: supercell positions")
            judge_hop(self.obs, sc.get_hop(), r, f"{what}: supercell bonds")
        for sm in self.samples:
            sm.reset_array()
            self.check_sample(sm, what)

    # -------------------------------------------------------- forbidden edits
    def forbidden(self):
        rng, o = self.rng, self.obs
        lvl = int(rng.integers(3))
        if lvl == 0:
            pc = self.pcs[self.scs[int(rng.integers(len(self.scs)))][1]][0]
            hd = tb.HopDict(pc.num_orb)
            hd[(1, 1, 0)] = np.ones((pc.num_orb,) * 2)
            fs = [lambda: pc.add_orbital((0.1, 0.2)), lambda: pc.add_orbital_cart((0.1, 0.2)),
                  lambda: pc.set_orbital(0, energy=99.0),
                  lambda: pc.set_orbital_cart(0, (0.3, 0.3, 0.3)),
                  lambda: pc.remove_orbital(0), lambda: pc.remove_orbitals([0]),
                  lambda: pc.add_hopping((1, 1), 0, 1, 5.0),
                  lambda: pc.add_hopping_dict(hd),
                  lambda: pc.remove_hopping((0, 0), 0, 1), lambda: pc.trim(),
                  lambda: pc.apply_pbc((False, False, False)),
                  lambda: pc.reset_lattice(np.eye(3))]
        elif lvl == 1:
            sc = self.scs[int(rng.integers(len(self.scs)))][0]
            fs = [lambda: sc.add_vacancy((0, 0, 0, 0)), lambda: sc.add_vacancies([(0, 0, 0, 1)]),
                  lambda: sc.set_vacancies([(1, 0, 0, 0)]), lambda: sc.set_vacancies([]),
                  lambda: sc.add_hopping((0, 0, 0), 0, 1, 9.0),
                  lambda: sc.set_orb_pos_modifier(gen.pos_modifier(rng)), lambda: sc.trim()]
        else:
            if not self.inter:
                return
            ih, a, b, terms = self.inter[0]
            (n, i, j) = list(terms)[0]
            fs = [lambda: ih.add_hopping((0, 0, 0), 0, 0, 3.0),
                  lambda: ih.remove_hopping(n, i, j), lambda: ih.remove_orbital(i),
                  lambda: ih.remove_orbitals([i]), lambda: ih.remove_rn(n)]
        k = int(rng.integers(len(fs)))
        o.raises(tb.LockError, fs[k], f"forbidden edit level {lvl} #{k}",
                 event="forbidden_edits")

    # --------------------------------------------------------- update cycles
    def cycle(self):
        rng, o = self.rng, self.obs
        # leave the samples in some modified state first
        for sm in self.samples:
            if rng.random() < 0.4:
                continue
            if rng.random() < 0.5:
                sm.rescale_ham(float(rng.uniform(5, 20)))
            if rng.random() < 0.3:
                sm.set_magnetic_field(float(rng.uniform(1, 50)), gauge=int(rng.integers(0, 2)))
            if rng.random() < 0.2:
                sm.set_k_point(gen.kpoint(rng))
        lvl = int(rng.integers(3))
        if lvl == 2 and not self.inter:
            lvl = 1
        o.ev("update_cycles")
        if lvl == 0:
            ip = self.scs[int(rng.integers(len(self.scs)))][1]
            pc, rc = self.pcs[ip]
            pc.unlock()
            before = (repr(rc.orbs), dict(rc.hop))
            for _ in range(int(rng.integers(1, 4))):
                op = int(rng.integers(4))
                if op == 0:
                    i = int(rng.integers(rc.n))
                    e = -2.0 if rc.orbs[i][1] == -1.0 else (-1.0 if rng.random() < 0.5
                                                            else gen.real(rng))
                    pc.set_orbital(i, energy=e)
                    rc.orbs[i][1] = e
                elif op == 1:
                    r, i, j = list(rc.hop)[int(rng.integers(len(rc.hop)))]
                    e = {-1: -2.0}.get(rc.hop[(r, i, j)], -1.0 if rng.random() < 0.5
                                       else gen.cplx(rng))
                    pc.add_hopping(r, i, j, e)
                    rc.add_hop(r, i, j, e)
                elif op == 2:
                    p, e = tuple(rng.uniform(0, 1, 3)), gen.real(rng)
                    # numbering of supercell bonds would shift: only without mods
                    if any(s[1] == ip and (s[5] or any(ip == self.scs[x][1]
                           for ihx in self.inter for x in ihx[1:3])) for s in self.scs):
                        continue
                    pc.add_orbital(p, energy=e)
                    rc.add_orb(p, e)
                    pc.add_hopping((0, 0, 0), 0, rc.n - 1, 0.7)
                    rc.add_hop((0, 0, 0), 0, rc.n - 1, 0.7)
                else:
                    i = int(rng.integers(rc.n))
                    p = tuple(float(x) for x in rng.uniform(0, 1, 3))
                    pc.set_orbital(i, position=p)
                    rc.orbs[i][0] = p
            pc.update()
            if before == (repr(rc.orbs), dict(rc.hop)):
                # nothing to propagate, so that unlocking may stay in force: make a change
                pc.unlock()
                e = rc.orbs[0][1] + 0.125
                pc.set_orbital(0, energy=e)
                rc.orbs[0][1] = e
                pc.update()
            o.raises(tb.LockError, lambda: pc.set_orbital(0, energy=1e3),
                     "primitive cell open to edits after an update", event="relocked")
        elif lvl == 1:
            n = int(rng.integers(len(self.scs)))
            s = self.scs[n]
            sc = s[0]
            sc.unlock()
            coupled = any(n in x[1:3] for x in self.inter)
            op = int(rng.integers(3))
            if op == 0 and not coupled and not s[5]:
                v = self.ref(n).ids[int(rng.integers(self.ref(n).n))]
                if self.ref(n).n > 4:
                    sc.add_vacancy(v)
                    s[4].add(v)
            elif op == 1:
                r = self.ref(n)
                pairs = {(k[0], k[1]) for k in r.edges()}
                i, j = int(rng.integers(r.n)), int(rng.integers(r.n))
                if i != j and (i, j) not in pairs:
                    sc.add_hopping((0, 0, 0), i, j, 0.3 + 0.1j)
                    s[5].append(((0, 0, 0), i, j, 0.3 + 0.1j))
            else:
                s[6] = gen.pos_modifier(rng) if rng.random() < 0.7 else None
                sc.set_orb_pos_modifier(s[6])
            sc.update()
            o.raises(tb.LockError, lambda: sc.add_vacancy((0, 0, 0, 0)),
                     "supercell open to edits after an update", event="relocked")
        else:
            ih, a, b, terms = self.inter[0]
            ih.unlock()
            if rng.random() < 0.4 and len(terms) > 1:
                k = list(terms)[int(rng.integers(len(terms)))]
                ih.remove_hopping(*k)
                del terms[k]
            else:
                self._inter_add(ih, terms, a, b)
            ih.update()
            o.raises(tb.LockError, lambda: ih.add_hopping((0, 0, 0), 0, 0, 1.0),
                     "coupling open to edits after an update", event="relocked")
        # as left by the update, before anything else touches them
        for sm in self.samples:
            self.check_sample(sm, f"after update at level {lvl}")


def refused(rng, obs, pc, rc, sc, ih=None):
    """Constructions that are refused."""
    m = [2 * x + 1 for x in gen.max_rn(rc)]
    d = int(np.argmax(m))
    cands = [(tb.SCDimLenError, lambda: tb.SuperCell(pc, (4,))),
             (tb.PBCLenError, lambda: tb.SuperCell(pc, m, (True,))),
             (tb.IDPCIndexError, lambda: tb.SuperCell(pc, m, vacancies=[(0, 0, 0, rc.n)])),
             (tb.IDPCLenError, lambda: tb.SuperCell(pc, m, vacancies=[(0, 0, 0)])),
             (tb.SampleCompError, lambda: tb.Sample(sc, pc))]
    if m[d] > 1:
        cands.append((tb.SCDimSizeError,
                      lambda: tb.SuperCell(pc, [m[x] - 2 * (x == d) for x in range(3)])))
    if ih is not None:
        cands.append((tb.SampleClosureError, lambda: tb.Sample(sc, ih)))
    exc, f = cands[int(rng.integers(len(cands)))]
    obs.raises(exc, f, f"construction which must fail with {exc.__name__}", event="refused_constructions")


def w_refused(rng, obs):
    """A refused construction leaves its parts open to edits and out of the chain of updates."""
    pc, rc = gen.small_cell(rng, norb=int(rng.integers(2, 4)), dims=2, connected=True)
    pc2, rc2 = gen.small_cell(rng, norb=2, dims=2, connected=True)
    sc, other = tb.SuperCell(pc2, (4, 4, 1)), tb.SuperCell(pc2, (4, 4, 1))
    ih = tb.SCInterHopping(sc, other)
    ih.add_hopping((0, 0, 0), 0, 1, 1.0)
    for _ in range(int(rng.integers(1, 4))):
        refused(rng, obs, pc, rc, sc, ih)
    pc.add_hopping((1, 0, 0), 0, 1, 2.5)
    rc.add_hop((1, 0, 0), 0, 1, 2.5)
    sc.add_hopping((0, 0, 0), 0, 3, 1.5)
    ih.add_hopping((0, 0, 0), 1, 1, 0.5)
    for x in (pc, sc, ih):
        x.update()
    now = ref.from_prim_cell(pc)
    obs.check(now.hop == rc.hop, "edit after a refused construction", event="update_cycles")
    dim = [2 * x + 1 for x in gen.max_rn(rc)]
    own = tb.SuperCell(pc, dim)
    sm = tb.Sample(own)
    sm.init_orb_eng(), sm.init_hop()
    pc.unlock()
    pc.add_orbital((0.3, 0.4), energy=9.0)
    rc.add_orb((0.3, 0.4), 9.0, "X")
    pc.update()
    obs.close(own.get_orb_eng(), ref.RefSuper(rc, dim, (0, 0, 0)).eng(), "supercell after the update")
    obs.hard()


def w_web(rng, obs):
    w = Web(rng, obs)
    if any(w.ref(i).n < 2 for i in range(len(w.scs))):
        return
    if rng.random() < 0.4:
        pc, rc = w.pcs[int(rng.integers(len(w.pcs)))]
        refused(rng, obs, pc, rc, w.scs[0][0])
    if rng.random() < 0.5:
        w.check_all("fresh")
    else:       # samples some of whose arrays exist when the first change comes
        for sm in w.samples:
            for f in (sm.init_orb_eng, sm.init_orb_pos, sm.init_hop):
                if rng.random() < 0.4:
                    f()
        obs.ev("partial_samples")
    cycles = 0
    for _ in range(int(rng.integers(3, 10))):
        if rng.random() < 0.4:
            w.forbidden()
            if rng.random() < 0.5:
                w.check_all("after a refused edit")
        else:
            w.cycle()
            cycles += 1
    w.check_all("final")
    obs.note(cells=len(w.pcs), supercells=len(w.scs), couplings=len(w.inter),
             samples=len(w.samples), cycles=cycles)
    obs.feed(np.array([len(r.edges()) for r in map(w.ref, range(len(w.scs)))]))
    obs.feed(w.samples[0].orb_eng)
    obs.hard(cycles > 0)


WORKLOADS = {"web": W(w_web, 350, 4000), "refused": W(w_refused, 60, 600)}
