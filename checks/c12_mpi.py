"""C12: results do not depend on how work is split over processes."""
import copy
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vlib import defaults, fakempi, gen
from vlib.core import Violation
from vlib.gen import tb
from vlib.runner import W

RULE = ("Item counts 0-60 over 1-70 groups; random cells and samples run on 1-9 ranks (threads "
        "over a recording communicator with random delays, and real MPI processes) with fewer, "
        "as many and more k-points than ranks. Non-trivial: more than one rank. Oracle: every "
        "item in exactly one group; all ranks enter the same collectives; every rank's result "
        "equals the serial one.")
REQUIRED = ["partitions", "collectives", "ranks_compared", "idle_ranks", "tbpm_compared",
            "lindhard_compared", "z2_compared", "spin_compared", "analysis_compared",
            "several_q", "defaults"]
RUN = {"echo_details": False}


def same(obs, parts, want, what, event="ranks_compared", tol=1e-9):
    for r, p in enumerate(parts):
        obs.close(p, want, f"{what} on rank {r} of {len(parts)}", tol=tol, event=event)
        obs.ev("ranks_compared")


def nranks(rng):
    return int(rng.choice([2, 2, 3, 3, 4, 5, 7, 9]))


def w_split(rng, obs):
    from tbplas import utils
    n, g = int(rng.integers(0, 61)), int(rng.integers(1, 20 if rng.random() < 0.7 else 71))
    parts = utils.split_range(n, num_group=g)
    obs.check(len(parts) == g, "number of groups", event="partitions")
    obs.check([x for p in parts for x in p] == list(range(n)),
              f"split_range({n}, {g}) = {parts}", event="partitions")
    sizes = [len(p) for p in parts]
    obs.check(max(sizes) - min(sizes) <= 1, f"split_range({n}, {g}) is unbalanced",
              event="partitions")
    if 1 <= g <= n:
        data = [object() for _ in range(n)]
        for alg in ("remainder", "range"):
            lists = utils.split_list(data, g, alg)
            flat = [x for p in lists for x in p]
            obs.check(len(lists) == g and len(flat) == n
                      and {id(x) for x in flat} == {id(x) for x in data},
                      f"split_list({n}, {g}, {alg}) loses or repeats items", event="partitions")
            want = ([data[k::g] for k in range(g)] if alg == "remainder" else
                    [data[p.start:p.stop] for p in parts])
            obs.check([[id(x) for x in p] for p in lists] == [[id(x) for x in p] for p in want],
                      f"split_list({n}, {g}, {alg}): wrong groups", event="partitions")
    g = min(g, 9)
    items = [int(x) for x in rng.integers(0, 100, n)]

    def body(rank):
        env = tb.MPIEnv(enable_mpi=True)
        lo, hi = env.dist_bound(n)
        lst = {a: env.dist_list(items, a) for a in ("range", "remainder")} if 1 <= g <= n else None
        return (env.rank, env.size, env.is_master, list(env.dist_range(n)),
                list(range(lo, hi + 1)), lst)
    out, _ = fakempi.run(g, body, rng)
    for r, (rank, size, master, rg, bd, lst) in enumerate(out):
        obs.check(rank == r and size == g and master == (r == 0), "rank, size or master")
        obs.check(rg == bd, f"dist_bound {bd} and dist_range {rg} differ (n={n}, size={g})",
                  event="partitions")
        if not rg:
            obs.ev("idle_ranks")
    obs.check([x for o in out for x in o[3]] == list(range(n)), "ranges over the ranks",
              event="partitions")
    if 1 <= g <= n:
        obs.check([x for o in out for x in o[5]["range"]] == items, "lists over the ranks",
                  event="partitions")
        obs.check(sorted(x for o in out for x in o[5]["remainder"]) == sorted(items),
                  "lists over the ranks", event="partitions")
    obs.note(n=n, g=g)
    obs.hard(g > 1)


def w_reduce(rng, obs):
    """The reductions themselves, for every memory layout."""
    size = nranks(rng) if rng.random() < 0.85 else 1
    shape = tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(1, 4))))
    cplx = rng.random() < 0.5
    order = str(rng.choice(["C", "F"]))
    data = [np.array(rng.normal(size=shape) + (1j * rng.normal(size=shape) if cplx else 0),
                     order=order) for _ in range(size)]
    keep = [d.copy() for d in data]

    def body(rank):
        env = tb.MPIEnv(enable_mpi=True)
        d = data[rank]
        a = env.all_reduce(d)
        b = env.all_average(d)
        c = env.reduce(d)
        e = env.average(d)
        f = d.copy(order="K")
        env.bcast(f)
        env.barrier()
        g = np.zeros((4, 6))[::2, ::2]
        for h in (env.all_reduce, env.all_average):
            try:
                h(g)
            except ValueError:
                continue
            raise Violation("an array with gaps in memory was accepted by a reduction")
        return a, b, c, e, f
    out, log = fakempi.run(size, body, rng)
    tot = sum(keep)
    for r, (a, b, c, e, f) in enumerate(out):
        obs.close(a, tot, "all_reduce", event="collectives")
        obs.close(b, tot / size, "all_average", event="collectives")
        obs.close(f, keep[0], "bcast", event="collectives")
        if r == 0:
            obs.close(c, tot, "reduce", event="collectives")
            obs.close(e, tot / size, "average", event="collectives")
        obs.check(np.array_equal(data[r], keep[r]), "a reduction changed its input")
    env = tb.MPIEnv(enable_mpi=False)
    for f in (env.all_reduce, env.reduce, env.average, env.all_average):
        obs.close(f(data[0]), keep[0], "serial reduction")
    obs.ev("collectives", len(log))
    obs.note(size=size, shape=shape, order=order, complex=cplx)
    obs.hard()


def w_diag(rng, obs):
    size = nranks(rng)
    nk = int(rng.integers(1, 12) if rng.random() < 0.93 else rng.integers(40, 150))
    ks = np.array([gen.kpoint(rng) for _ in range(nk)])
    if rng.random() < 0.6:
        model, rc = gen.cell_pair(rng, norb=2 * int(rng.integers(1, 4)))
        n = rc.n
    else:
        model, rs, _, _ = gen.sample_pair(rng, max_orb=30)
        n = rs.n
    sel = list(range(0, n, 2))
    if n < 2:
        return
    conv = int(rng.integers(1, 3)) if hasattr(model, "num_hop") else 1
    dk = dict(e_min=-5.0, e_max=5.0, e_step=0.5, sigma=0.3)
    model_calls = rng.random() < 0.3

    def calc(mpi):
        s = tb.DiagSolver(model, enable_mpi=mpi, echo_details=False)
        bands = s.calc_bands(ks, orbital_indices=sel, convention=1)
        if model_calls:
            d2 = model.calc_dos(ks, enable_mpi=mpi, echo_details=False, **dk)[1]
            b2 = model.calc_bands(ks, enable_mpi=mpi, echo_details=False)[1]
        else:
            d2 = b2 = np.zeros(1)
        en, dos = s.calc_dos(ks, **dk)
        e1, st = s.calc_states(ks)
        e2, part = s.calc_states(ks, all_reduce=False)
        return dict(bands=bands.bands, proj=bands.proj, dos=dos, energies=e1, states=st,
                    part_e=e2, part_s=part, d2=d2, b2=b2)
    serial = calc(False)
    # the model's own caches are warm now, as they are on every rank of a real run
    out, log = fakempi.run(size, lambda r: calc(True), rng)
    for k in ("bands", "proj", "dos", "energies", "states", "d2", "b2"):
        same(obs, [o[k] for o in out], serial[k], k)
    # without synchronisation each k-point is on exactly one rank
    owner = np.zeros(nk, int)
    for o in out:
        owner += np.any(o["part_s"] != 0, axis=(1, 2)).astype(int)
    obs.check(np.all(owner == 1), f"k-points handled by {owner.tolist()} ranks", event="partitions")
    obs.close(sum(o["part_s"] for o in out), serial["part_s"], "unsynchronised states")
    obs.close(sum(o["part_e"] for o in out), serial["part_e"], "unsynchronised energies")
    if size > nk:
        obs.ev("idle_ranks", size - nk)
    obs.ev("collectives", len(log))
    obs.note(size=size, nk=nk, n=n)
    obs.hard()


def w_response(rng, obs):
    size = nranks(rng)
    lat = gen.lattice(rng, two_d=True)
    pc, rc = gen.cell_pair(rng, norb=2 * int(rng.integers(1, 3)), lat=lat, rmax=1, dims=2)
    mesh = tuple(int(x) for x in rng.integers(1, 4, 2)) + (1,)
    nq = int(rng.integers(1, 4))
    q = rng.integers(-3, 4, (nq, 3)).astype(np.int64)
    q[:, 2] = 0
    qa = rng.uniform(0.1, 3, (nq, 3))
    fort = bool(rng.integers(2))
    par = dict(kmesh_size=mesh, energy_max=5.0, energy_step=4, dimension=int(rng.choice([2, 3])),
               delta=0.05, temperature=2000.0, echo_details=False)
    kb = np.linspace(0, 0.5, int(rng.integers(1, 5)))
    ka = np.linspace(-0.5, 0.5, 9)
    kg = np.array([gen.kpoint(rng) for _ in range(int(rng.integers(1, 6)))])
    occ = int(rng.integers(1, rc.n + 1))

    def calc(mpi):
        lin = tb.Lindhard(pc, enable_mpi=mpi, **par)
        a = lin.calc_dyn_pol_regular(q, use_fortran=fort)[1]
        b = lin.calc_dyn_pol_arbitrary(qa, use_fortran=fort)[1]
        c = lin.calc_ac_cond("xy", use_fortran=fort)[1]
        z = tb.Z2(pc, num_occ=occ, enable_mpi=mpi, echo_details=False).calc_phases(ka, kb)[1]
        st = tb.SpinTexture(pc, kg, spin_major=True, enable_mpi=mpi, echo_details=False)
        return dict(regular=a, arbitrary=b, ac=c, z2=z,
                    spin=np.array([st.eval(x) for x in "xyz"]))
    serial = calc(False)
    out, log = fakempi.run(size, lambda r: calc(True), rng)
    for k in ("regular", "arbitrary", "ac"):
        same(obs, [o[k] for o in out], serial[k], k, event="lindhard_compared")
    same(obs, [o["z2"] for o in out], serial["z2"], "phases", event="z2_compared")
    same(obs, [o["spin"] for o in out], serial["spin"], "spin texture", event="spin_compared")
    if nq > 1:
        obs.ev("several_q")
    if size > min(np.prod(mesh), len(kb), len(kg)):
        obs.ev("idle_ranks")
    obs.ev("collectives", len(log))
    obs.note(size=size, mesh=mesh, nq=nq, fortran=fort)
    obs.hard()


def w_tbpm(rng, obs):
    size = nranks(rng)
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=25)
    sm.rescale_ham()
    nreq = int(rng.integers(1, 6))
    total = -(-nreq // size) * size
    kinds = [str(x) for x in rng.permutation(["dos", "ldos", "ac", "dp", "dc", "hall", "qe"])[:3]]
    tnr = int(rng.integers(3, 8))
    er = sm.energy_range
    cfg = tb.Config()
    cfg.generic.update(nr_time_steps=tnr, nr_random_samples=nreq, seed=int(rng.integers(1, 5000)),
                       nr_Fermi_fft_steps=2 ** 10, beta=float(rng.uniform(1, 5)))
    cfg.LDOS["site_indices"] = [int(x) for x in rng.permutation(rs.n)[:2]]
    cfg.dyn_pol["q_points"] = [[1.0, 0.0, 0.0], [0.3, 0.4, 0.0]]
    cfg.dckb.update(n_kernel=6, direction=int(rng.integers(1, 3)), energies=[-0.1, 0.1],
                    ne_integral=8)
    cfg.DC_conductivity["energy_limits"] = (-0.3 * er, 0.3 * er)
    cfg.quasi_eigenstates["energies"] = [0.0, 0.1 * er]
    scratch = tempfile.mkdtemp(dir=os.getcwd())
    cnt = {"dos": "corr_DOS", "ldos": "corr_LDOS", "ac": "corr_AC", "dp": "corr_dyn_pol",
           "hall": "hall_mu", "qe": "qe"}

    def calc(mpi, tag, n):
        c = copy.deepcopy(cfg)
        c.generic["nr_random_samples"] = n
        s = tb.Solver(sm, c, enable_mpi=mpi, echo_details=False,
                      directory=f"{scratch}/{tag}", prefix="run")
        an = tb.Analyzer(sm, c, dimension=3, enable_mpi=mpi)
        r = {}
        for k in kinds:
            if k == "dos":
                r[k] = s.calc_corr_dos()
                r["a_dos"] = an.calc_dos(r[k])[1]
            elif k == "ldos":
                r[k] = s.calc_corr_ldos()
                r["a_ldos"] = an.calc_ldos(r[k])[1]
            elif k == "ac":
                r[k] = s.calc_corr_ac_cond()
                om, r["a_ac"] = an.calc_ac_cond(r[k])
            elif k == "dp":
                r[k] = s.calc_corr_dyn_pol()
                r["a_dp"] = an.calc_dyn_pol(r[k])[2]
                r["a_eps"] = an.calc_epsilon(r["a_dp"])
            elif k == "dc":
                a, b = s.calc_corr_dc_cond()
                r["dc_dos"], r["dc"] = a, b
                r["a_dc"] = an.calc_dc_cond(a, b)[1]
                r["a_diff"] = an.calc_diff_coeff(b)[1]
            elif k == "hall":
                r[k] = s.calc_hall_mu()
                r["a_hall"] = an.calc_hall_cond(r[k])[1]
            elif k == "qe":
                r[k] = s.calc_quasi_eigenstates(save_data=True)
        if mpi:
            for f in (s.calc_ldos_haydock, lambda: s.calc_psi_t(np.ones(rs.n), [0])):
                try:
                    f()
                except RuntimeError:
                    pass
                else:
                    raise Violation("a serial-only calculation ran on several processes")
        return r, c.generic["nr_random_samples"]
    try:
        serial, _ = calc(False, "serial", total)
        out, log = fakempi.run(size, lambda r: calc(True, "par", nreq), rng)
        for r, n in out:
            obs.check(n == total, f"{nreq} samples on {size} ranks became {n}, expected {total}")
        for k, v in serial.items():
            tol = 1e-8 if k[0] != "a" else 1e-6
            same(obs, [o[0][k] for o in out], v, k, tol=tol,
                 event="analysis_compared" if k.startswith("a_") else "tbpm_compared")
        for k in kinds:
            if k in cnt and not (k == "dos" and "dc" in kinds):  # same file
                f = np.load(f"{scratch}/par/run.{cnt[k]}.npy")
                obs.close(f, out[0][0][k], f"saved {k}", event="tbpm_compared")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    obs.ev("collectives", len(log))
    obs.note(size=size, samples=nreq, kinds=sorted(kinds), n=rs.n)
    obs.hard()


REAL = r"""
import sys, pickle
inst, verif, jobfile, outfile = sys.argv[1:5]
sys.path.insert(0, verif)
from vlib import native
native.install_import_hook(inst)
import numpy as np, tbplas as tb
job = pickle.load(open(jobfile, "rb"))
pc = tb.PrimitiveCell(job["lat"], unit=tb.ANG)
for p, e in job["orbs"]:
    pc.add_orbital(p, energy=e)
for r, i, j, t in job["hops"]:
    pc.add_hopping(r, i, j, t)
def calc(mpi):
    s = tb.DiagSolver(pc, enable_mpi=mpi, echo_details=False)
    lin = tb.Lindhard(pc, enable_mpi=mpi, **job["par"])
    return [s.calc_bands(job["ks"]).bands, s.calc_dos(job["ks"], e_min=-5., e_max=5., e_step=.5)[1],
            lin.calc_dyn_pol_regular(job["q"])[1], lin.calc_dyn_pol_regular(job["q"], use_fortran=False)[1],
            lin.calc_dyn_pol_arbitrary(job["qa"])[1], lin.calc_ac_cond("xx")[1]]
a, b = calc(False), calc(True)
bad = [k for k, (x, y) in enumerate(zip(a, b))
       if x.shape != y.shape or not np.allclose(x, y, atol=1e-9 * max(1, np.abs(x).max()), rtol=0)]
from mpi4py import MPI
with open(f"{outfile}.{MPI.COMM_WORLD.rank}", "w") as f:
    f.write(f"{MPI.COMM_WORLD.size} {bad}")
"""


def w_real(rng, obs):
    """The same over real MPI processes, where they can be started here."""
    import pickle
    size = int(rng.integers(2, 5))
    _, rc = gen.cell_pair(rng, norb=2, lat=gen.lattice(rng, two_d=True), rmax=1, dims=2,
                          origin=np.zeros(3))
    seen, hops = set(), []
    for (r, i, j), t in rc.hop.items():
        if (r, i, j) not in seen:
            seen |= {(r, i, j), (tuple(-x for x in r), j, i)}
            hops.append((r, i, j, t))
    q = rng.integers(0, 3, (2, 3)).astype(np.int64)
    q[:, 2] = 0
    job = dict(lat=rc.lat * 10, orbs=[(o[0], o[1]) for o in rc.orbs], hops=hops,
               ks=np.array([gen.kpoint(rng) for _ in range(int(rng.integers(1, 7)))]), q=q,
               qa=rng.uniform(0.1, 2, (2, 3)),
               par=dict(kmesh_size=(int(rng.integers(1, 4)), 2, 1), energy_max=4., energy_step=3,
                        dimension=2, delta=0.05, echo_details=False))
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with open(f"{d}/job", "wb") as f:
            pickle.dump(job, f)
        with open(f"{d}/rank.py", "w") as f:
            f.write(REAL)
        import tbplas.fortran.f2py as ext
        inst = os.path.dirname(os.path.dirname(os.path.dirname(ext.__file__)))
        verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, TMPDIR=d)
        for k in ("OMPI_MCA_btl", "OMPI_MCA_pml"):
            env.pop(k, None)
        try:
            p = subprocess.run(["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(size),
                                sys.executable, f"{d}/rank.py", inst, verif, f"{d}/job",
                                f"{d}/out"], env=env, cwd=d, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            obs.ev("real_mpi_unavailable")
            return
        res = []
        for r in range(size):
            if os.path.exists(f"{d}/out.{r}"):
                res.append(open(f"{d}/out.{r}").read())
        if len(res) < size:
            if "Traceback" in p.stdout:
                raise Violation(f"a rank of {size} failed:\n{p.stdout[-2500:]}")
            obs.ev("real_mpi_unavailable")
            return
        for r in res:
            obs.check(r == f"{size} []", f"real processes: {r} (size, differing results)",
                      event="real_ranks")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    obs.note(size=size)
    obs.hard()


WORKLOADS = {"defaults": W(defaults.c12, 15, 150),
             "split": W(w_split, 300, 4000), "reduce": W(w_reduce, 100, 1000),
             "diag": W(w_diag, 100, 1200), "response": W(w_response, 100, 1200),
             "tbpm": W(w_tbpm, 80, 1000), "real": W(w_real, 8, 60, workers=2, chunk=4)}
