"""C15: results do not depend on threads and are reproducible; no data races."""
import sys

import numpy as np

from vlib import gen, tbpmref, tsan
from vlib.gen import tb
from vlib.runner import W

RULE = ("Every native calculation (propagation, all TBPM correlation functions, recursion, Hall moments and their "
        "integral, Lindhard sums) on random samples and cells of very different size, run with one thread and with "
        "2-8 threads under seeded delays of the threads, twice each. Non-trivial: some parallel region ran with "
        "several threads. Oracle: agreement with one thread up to rounding and exact repetition with one thread; "
        "ThreadSanitizer with the ordering of the OpenMP runtime made known to it, any report in the code of tbplas "
        "is a violation; random states measured through the API.")
REQUIRED = ["runs:dos", "runs:ldos", "runs:ac", "runs:dyn_pol", "runs:dc", "runs:hall_mu", "runs:hall", "runs:quasi",
            "runs:haydock", "runs:psi_t", "runs:lindhard_regular", "runs:lindhard_arbitrary", "runs:lindhard_ac",
            "parallel_regions_with_several_threads", "distinct_completion_orders", "state_pairs", "repeats",
            "statistics"]
ASSUMPTIONS = ["OpenMP code built with gcc/libgomp; MKL code paths are not built here"]


def eng(r):
    return float(r.choice([-1, 1])) * float(r.uniform(0.05, 3))


def model(rng, max_orb):
    while True:
        sm, rs, _, _ = gen.sample_pair(rng, max_orb=max_orb, eng=eng, displaced=False)
        if rs.n >= 2 and np.max(np.abs(rs.ham())) > 1e-3:
            break
    sm.rescale_ham()
    cfg = tb.Config()
    cfg.generic.update(seed=int(rng.integers(1, 10 ** 6)), nr_random_samples=int(rng.integers(1, 3)),
                       nr_time_steps=int(rng.choice([2, 5, 9, 17])), nr_Fermi_fft_steps=2 ** 9,
                       beta=3.0 / sm.rescale, mu=float(rng.uniform(-0.3, 0.3)) * sm.rescale)
    q = rng.uniform(-1, 1, (2, 3))
    cfg.dyn_pol["q_points"] = q
    cfg.LDOS.update(site_indices=[int(rng.integers(rs.n))], recursion_depth=int(rng.integers(3, 30)), delta=0.3)
    half = sm.energy_range / 2
    cfg.DC_conductivity["energy_limits"] = (-0.4 * half, 0.4 * half)
    cfg.quasi_eigenstates["energies"] = [float(x) for x in rng.uniform(-half, half, 5)]
    cfg.dckb.update(n_kernel=int(rng.integers(3, 12)), ne_integral=int(rng.integers(4, 40)),
                    direction=int(rng.integers(1, 3)), energies=[float(x) for x in rng.uniform(-1, 1, 4)])
    psi = rng.normal(size=rs.n) + 1j * rng.normal(size=rs.n)
    mu_mn = rng.normal(size=(cfg.dckb["n_kernel"],) * 2) + 0j
    tnr = cfg.generic["nr_time_steps"]
    logs = np.array(sorted(set(int(x) for x in rng.integers(0, tnr + 1, 3))))
    return sm, rs, cfg, psi, mu_mn, logs


def tbpm_calls(sm, cfg, psi, mu_mn, logs, d):
    def s():
        return tbpmref.solver(sm, cfg, d)
    return {"dos": lambda: s().calc_corr_dos(), "ldos": lambda: s().calc_corr_ldos(),
            "ac": lambda: s().calc_corr_ac_cond(), "dyn_pol": lambda: s().calc_corr_dyn_pol(),
            "dc": lambda: np.concatenate([np.ravel(x) for x in s().calc_corr_dc_cond()]),
            "hall_mu": lambda: s().calc_hall_mu(), "quasi": lambda: s().calc_quasi_eigenstates(),
            "haydock": lambda: s().calc_ldos_haydock()[1],
            "psi_t": lambda: s().calc_psi_t(psi.copy(), logs),
            "hall": lambda: tb.Analyzer(sm, cfg).calc_hall_cond(mu_mn)[1]}


def lindhard_calls(rng):
    dims = int(rng.choice([2, 3]))
    while True:
        lat = gen.lattice(rng, two_d=True)
        if dims == 3 or abs(lat[2, 2]) > 0:
            break
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 6)), lat=lat, rmax=1, dims=2 if dims == 2 else None)
    size = tuple(int(x) for x in rng.integers(1, 6, 2)) + (1 if dims == 2 else int(rng.integers(1, 4)),)
    par = dict(energy_min=0.3, energy_max=6.0, energy_step=int(rng.choice([1, 2, 7, 30])), mu=gen.real(rng, 2.0),
               temperature=300.0, dimension=dims, kmesh_size=size, echo_details=False, delta=0.05)
    q = rng.uniform(-2, 2, (2, 3))
    qg = rng.integers(-3, 4, (2, 3))
    comp = str(rng.choice(["xx", "xy", "yx", "yy"]))
    mk = lambda: tb.Lindhard(pc, **par)
    return rc, {"lindhard_regular": lambda: mk().calc_dyn_pol_regular(qg)[1],
                "lindhard_arbitrary": lambda: mk().calc_dyn_pol_arbitrary(q)[1],
                "lindhard_ac": lambda: mk().calc_ac_cond(comp)[1]}


def drive(rng, obs, calls, shim, counts, tol):
    for name, f in calls.items():
        shim.delays(0, 0)
        shim.threads(1)
        one = np.asarray(f())
        again = np.asarray(f())
        obs.check(one.shape == again.shape and np.array_equal(one, again, equal_nan=True),
                  f"{name}: two runs with one thread and the same seed differ", event="repeats")
        for n in counts:
            shim.threads(n)
            shim.delays(int(rng.choice([0, 20, 100])), int(rng.integers(1, 2 ** 31)))
            for _ in range(2):
                got = np.asarray(f())
                obs.close(got, one, f"{name} with {n} threads differs from 1 thread", tol=tol,
                          event="thread_comparisons")
        obs.ev("runs:" + name)
    shim.delays(0, 0)
    shim.threads(1)
    shim.report(obs)


def regions(obs, shim):
    mod = sys.modules["tbplas.fortran.f2py"]
    names = tsan.region_names(mod.__file__.rsplit("/tbplas/", 1)[0])
    obs.events["parallel_regions_in_the_code"] = len(names)
    for r in shim.regions():
        if r in names:
            obs.ev("region " + names[r].replace("._omp_fn.", " "))


def w_tbpm(rng, obs, small=False):
    import tbplas                                                   # load the module first
    shim = tsan.Shim()
    sm, rs, cfg, psi, mu_mn, logs = model(rng, 30 if small else int(rng.choice([6, 40, 150])))
    counts = [int(x) for x in (rng.permutation([2, 3, 4, 5, 8])[:1 if small else 2])]
    obs.note(n=rs.n, threads=counts, samples=cfg.generic["nr_random_samples"], steps=cfg.generic["nr_time_steps"])
    with tbpmref.Out() as d:
        calls = tbpm_calls(sm, cfg, psi, mu_mn, logs, d)
        drive(rng, obs, calls, shim, counts, 1e-8)
    obs.hard(obs.events["parallel_regions_with_several_threads"] > 0)
    if small:
        regions(obs, shim)


def w_lindhard(rng, obs, small=False):
    import tbplas
    shim = tsan.Shim()
    rc, calls = lindhard_calls(rng)
    counts = [int(x) for x in (rng.permutation([2, 3, 4, 5, 8])[:1 if small else 2])]
    obs.note(n=rc.n, threads=counts)
    drive(rng, obs, calls, shim, counts, 1e-9)
    obs.hard(obs.events["parallel_regions_with_several_threads"] > 0)
    if small:
        regions(obs, shim)


def w_race_tbpm(rng, obs):
    w_tbpm(rng, obs, True)


def w_race_lindhard(rng, obs):
    w_lindhard(rng, obs, True)


def w_states(rng, obs):
    """The random states of one calculation are normalised, different and as random as a trace estimate needs."""
    distinct_states(rng, obs, int(rng.choice([1, 1337, int(rng.integers(1, 10 ** 6))])))


def w_seed_zero(rng, obs):
    distinct_states(rng, obs, 0)


def distinct_states(rng, obs, seed):
    n, ns = int(rng.integers(12, 24)), 4
    with tbpmref.Out() as d:
        ws = tbpmref.measure_states(n, seed, ns, d)
        other = tbpmref.measure_states(n, seed + 1, 1, d)[0]
    obs.note(n=n, seed=seed)
    obs.hard()
    for w in ws:
        obs.close(np.linalg.norm(w), 1.0, "norm of a random state", tol=1e-9)
    for a in range(ns):
        for b in range(a):
            ov = abs(np.vdot(ws[a], ws[b])) ** 2
            obs.check(ov < 0.95, f"random samples {b + 1} and {a + 1} of seed {seed} use the same state (overlap {ov:.6f})",
                      event="state_pairs", mech="seed-zero-same-states" if seed == 0 else None)
    if seed:
        ov = abs(np.vdot(ws[0], other)) ** 2
        obs.check(ov < 0.95, f"seeds {seed} and {seed + 1} give the same state", event="state_pairs")


def w_statistics(rng, obs):
    """Site populations and phases over many states."""
    n, ns, seeds = 12, 4, [int(x) for x in rng.permutation(100000)[:30] + 1]
    ws = []
    with tbpmref.Out() as d:
        for s in seeds:
            ws += tbpmref.measure_states(n, s, ns, d)
    ws = np.array(ws)                                        # up to a global phase of each
    rho = np.einsum("si,sj->ij", ws, ws.conj()) / len(ws)
    obs.note(seed=seeds[0])
    obs.hard()
    dev = np.max(np.abs(rho - np.eye(n) / n)) * n * np.sqrt(len(ws))
    obs.check(dev < 7.5, f"average |w><w| is off 1/n by {dev:.2f} standard deviations", event="statistics")


PASSIVE = {"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}
WORKLOADS = {"tbpm": W(w_tbpm, 16, 300, variant="shim", threads=2, env=PASSIVE),
             "lindhard": W(w_lindhard, 40, 600, variant="shim", threads=2, env=PASSIVE),
             "race_tbpm": W(w_race_tbpm, 8, 150, variant="tsan", threads=2, env=PASSIVE),
             "race_lindhard": W(w_race_lindhard, 12, 200, variant="tsan", threads=2, env=PASSIVE),
             "states": W(w_states, 40, 400), "seed_zero": W(w_seed_zero, 1, 1),
             "statistics": W(w_statistics, 4, 20)}
