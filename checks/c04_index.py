"""C04: orbital numbering of supercells is a bijection."""
import numpy as np

from vlib import gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random primitive cells and supercells (1-3 directions, up to 5x5x5 cells), "
        "vacancy sets grown, replaced and rejected in random histories. Non-trivial: "
        "vacancies present. Oracle: explicit enumeration of all cells and orbitals "
        "without the vacancies, in both directions, one by one and as arrays, and the "
        "documented error for every index that is not an orbital.")
REQUIRED = ["ids_forward", "ids_backward", "vacancy_queries", "rejections", "lost_vacancies", "ids_first"]


def judge(obs, sc, rs, rng):
    n = rs.n
    obs.check(sc.num_orb_sc == n, f"num_orb_sc {sc.num_orb_sc} != {n}")
    obs.check(sc.num_vac == len(rs.vac), "num_vac")
    ids = np.array(rs.ids, dtype=np.int32).reshape(-1, 4)
    if n:
        sel = np.arange(n) if rng.random() < 0.3 else rng.integers(0, n, int(rng.integers(1, 2 * n + 1)))
        kind = [np.int64, np.int64, np.int32, np.int16, np.uint32, None][int(rng.integers(6))]
        got = sc.orb_id_sc2pc_array(sel.astype(kind) if kind else sel.tolist())
        obs.check(np.array_equal(got, ids[sel]), lambda: "sc->pc array conversion is wrong "
                  f"for {sel[np.any(got != ids[sel], axis=1)][:4]}", event="ids_forward")
        kind = [np.int32, np.int32, np.int64, np.int16, None][int(rng.integers(5))]
        back = sc.orb_id_pc2sc_array(ids[sel].astype(kind) if kind else ids[sel].tolist())
        obs.check(np.array_equal(back, sel), "pc->sc array conversion is wrong",
                  event="ids_backward")
        for i in rng.integers(0, n, 4):
            i = int(i)
            obs.check(tuple(int(x) for x in sc.orb_id_sc2pc(i)) == rs.ids[i],
                      f"sc->pc of {i}", event="ids_forward")
            q = rs.ids[i] if rng.random() < 0.5 else ids[i].astype(np.int32 if rng.random() < 0.5 else np.int64)
            obs.check(int(sc.orb_id_pc2sc(q)) == i, f"pc->sc of {rs.ids[i]}",
                      event="ids_backward")
    for bad in (n, n + int(rng.integers(1, 100)), -1, -n - 1):
        obs.raises(tb.IDSCIndexError, lambda: sc.orb_id_sc2pc(bad), f"sc id {bad} of {n}")
        obs.raises(tb.IDSCIndexError, lambda: sc.orb_id_sc2pc_array(np.array([0, bad] if n else [bad])),
                   f"sc id {bad} of {n} in array")
    for v in list(rs.vac)[:3]:
        obs.raises(tb.IDPCVacError, lambda: sc.orb_id_pc2sc(v), f"vacancy {v}",
                   event="vacancy_queries")
        q = np.array([v] if not n else [rs.ids[0], v], dtype=np.int32)
        obs.raises(tb.IDPCVacError, lambda: sc.orb_id_pc2sc_array(q), f"vacancy {v} in array",
                   event="vacancy_queries")
    dim = rs.dim
    for d in range(4):
        lim = dim[d] if d < 3 else rs.cell.n
        for val in (lim, -1):
            q = [0, 0, 0, 0]
            q[d] = val
            obs.raises(tb.IDPCIndexError, lambda: sc.orb_id_pc2sc(tuple(q)), f"pc id {q}")
            obs.raises(tb.IDPCIndexError, lambda: sc.orb_id_pc2sc(np.array(q)), f"pc id {q} as an array")
            obs.raises(tb.IDPCIndexError,
                       lambda: sc.orb_id_pc2sc_array(np.array([q], dtype=np.int32)),
                       f"pc id {q} in array")
    obs.raises(tb.IDPCLenError, lambda: sc.orb_id_pc2sc((0, 0, 0)), "pc id of length 3")
    obs.raises(tb.IDPCTypeError, lambda: sc.orb_id_pc2sc([0, 0, 0, 0]), "pc id as list")
    if n:
        obs.close(sc.get_orb_eng(), rs.eng(), "orbital energies follow the numbering")
        obs.close(sc.get_orb_pos(), rs.pos(), "orbital positions follow the numbering")


def w_history(rng, obs):
    pc, rc = gen.small_cell(rng)
    dim, pbc, vac = gen.super_spec(rng, rc, vac_frac=rng.choice([0, 0.1, 0.3, 0.9]))
    form = lambda vs: np.array(vs, dtype=np.int32 if rng.random() < 0.5 else np.int64) \
        if vs and rng.random() < 0.3 else list(vs)
    if rng.random() < 0.5:
        sc = tb.SuperCell(pc, dim, pbc, vacancies=form(vac))
        cur = set(vac)
    else:
        sc = tb.SuperCell(pc, dim, pbc)
        cur = set()
    judge(obs, sc, ref.RefSuper(rc, dim, pbc, cur), rng)
    maxvac = len(cur)
    for step in range(int(rng.integers(1, 5))):
        op = int(rng.integers(5))
        if op == 0:
            v = (vac or [(0, 0, 0, 0)])[int(rng.integers(len(vac) or 1))]
            sc.add_vacancy(v if rng.random() < 0.5 else np.array(v))
            cur.add(v)
        elif op == 1:
            more = gen.super_spec(rng, rc, extra=0, vac_frac=0.2)[2]
            sc.add_vacancies(form(more))
            cur |= set(more)
        elif op == 2:
            new = gen.super_spec(rng, rc, extra=0, vac_frac=rng.choice([0, 0.1, 0.6]))[2]
            sc.set_vacancies(form(new))
            cur = set(new)
        elif op == 3:
            bad = (0, 0, dim[2], 0) if rng.random() < 0.5 else (0, 0, 0, -1)
            first = (0, 0, 0, 0)
            f = [lambda: sc.add_vacancies([first, bad]), lambda: sc.add_vacancy(bad),
                 lambda: sc.set_vacancies([first, bad])][int(rng.integers(3))]
            obs.raises(tb.IDPCIndexError, f, f"vacancy {bad} outside {dim}")
            obs.raises(tb.IDPCLenError, lambda: sc.add_vacancies([first, (0, 0, 0)]),
                       "vacancy of length 3")
        else:
            sc.set_vacancies()
            cur = set()
        maxvac = max(maxvac, len(cur))
        judge(obs, sc, ref.RefSuper(rc, dim, pbc, cur), rng)
    obs.note(orbitals=rc.n, dim=dim, pbc=pbc, vacancies=len(cur))
    obs.hard(maxvac > 0)


def w_cellchange(rng, obs):
    """The primitive cell gains and loses orbitals under an existing supercell."""
    pc, rc = gen.small_cell(rng, norb=int(rng.integers(2, 5)), connected=True)
    dim, pbc, vac = gen.super_spec(rng, rc, vac_frac=rng.choice([0, 0.1, 0.3]))
    sc = tb.SuperCell(pc, dim, pbc, vacancies=list(vac))
    cur = set(vac)
    for step in range(int(rng.integers(1, 4))):
        pc.unlock()
        if rng.random() < 0.5 or rc.n < 3:
            p, e = tuple(float(x) for x in rng.uniform(0, 1, 3)), gen.real(rng)
            pc.add_orbital(p, energy=e)
            rc.add_orb(p, e)
        else:
            i = int(rng.integers(rc.n))
            if not [k for k in rc.hop if i not in k[1:]]:
                continue
            pc.remove_orbital(i)
            rc.remove_orbs([i])
        lost = [v for v in cur if v[3] >= rc.n]
        for rep in range(3 if lost else 0):
            f = [sc.get_orb_eng, sc.get_orb_pos, sc.sync_array,
                 lambda: sc.orb_id_sc2pc(0)][int(rng.integers(4))]
            obs.raises(tb.IDPCIndexError, f, f"vacancies {lost[:2]} the cell no longer has, "
                       f"attempt {rep}", event="lost_vacancies")
        if lost:
            cur = {v for v in cur if v[3] < rc.n}
            sc.set_vacancies(list(cur))
        elif rng.random() < 0.8:       # the first call after the change
            rs = ref.RefSuper(rc, dim, pbc, cur)
            if rs.n:
                i = int(rng.integers(rs.n))
                how = int(rng.integers(6))
                got = [lambda: int(sc.orb_id_pc2sc(rs.ids[i])), lambda: tuple(int(x) for x in sc.orb_id_sc2pc(i)),
                       lambda: int(sc.orb_id_pc2sc_array(np.array([rs.ids[i]], dtype=np.int32))[0]),
                       lambda: tuple(int(x) for x in sc.orb_id_sc2pc_array(np.array([i]))[0]),
                       lambda: sc.num_orb_sc, lambda: len(sc.get_orb_eng())][how]()
                obs.check(got == [i, rs.ids[i], i, rs.ids[i], rs.n, rs.n][how],
                          lambda: f"the first query ({how}) after the cell changed gives {got}", event="ids_first")
        judge(obs, sc, ref.RefSuper(rc, dim, pbc, cur), rng)
    obs.note(orbitals=rc.n, dim=dim, vacancies=len(cur))
    obs.hard(len(vac) > 0)


WORKLOADS = {"history": W(w_history, 600, 8000),
             "cellchange": W(w_cellchange, 300, 4000)}
