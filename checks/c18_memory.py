"""C18: the native code stays inside its arrays and within defined behaviour."""
import importlib

import numpy as np

from vlib import gen, tbpmref
from vlib.gen import tb
from vlib.runner import W

RULE = ("The workloads of the other properties and calls with extreme sizes, run on two instrumented builds: one with "
        "every Cython and Fortran subscript, pointer and allocation checked and Fortran locals filled with signalling "
        "NaNs, one with AddressSanitizer and UndefinedBehaviorSanitizer, fresh heap memory filled with NaNs. "
        "Non-trivial: as in the borrowed workload. Oracle: the instrumentation, the end of the process, and the "
        "oracle of the borrowed workload, which poisoned memory must not change.")
REQUIRED = ["cases:bounds", "cases:asan", "edges:bounds", "edges:asan", "canary"]
ASSUMPTIONS = ["gfortran and Cython instrumentation; integer overflow is watched in the C code only, the random "
               "number seeding of the Fortran code wraps by design"]

BORROW = [  # module, workload, quick cases per build, thorough
    ("c01_bloch", "models", 60, 1500), ("c01_bloch", "overlap", 20, 300),
    ("c02_edits", "history", 30, 800), ("c03_locks", "web", 20, 500),
    ("c04_index", "history", 60, 1500), ("c04_index", "cellchange", 25, 500),
    ("c05_network", "network", 60, 1500), ("c05_network", "inter", 15, 300),
    ("c06_sample", "assemble", 50, 1200), ("c07_rescale", "rescale", 40, 800),
    ("c08_field", "open", 25, 500), ("c09_transform", "reshape", 20, 400),
    ("c09_transform", "merge", 12, 300), ("c11_diag", "cell", 16, 400), ("c11_diag", "sample", 8, 200),
    ("c13_lindhard", "dynpol", 25, 500), ("c13_lindhard", "ac", 25, 500), ("c13_lindhard", "grid", 8, 200),
    ("c14_propagation", "psi", 60, 1500), ("c14_propagation", "precision", 20, 500),
    ("c16_tbpm", "dos", 16, 300), ("c16_tbpm", "ac", 16, 300), ("c16_tbpm", "dyn_pol", 16, 300),
    ("c16_tbpm", "quasi", 12, 200), ("c16_tbpm", "dc", 12, 200), ("c16_tbpm", "hall", 12, 200),
    ("c16_tbpm", "haydock", 30, 500), ("c17_analysis", "hall", 25, 500),
]


def borrowed(module, name, variant):
    def work(rng, obs):
        obs.ev("cases:" + variant)
        mod = importlib.import_module("checks." + module)
        mod.WORKLOADS[name].func(rng, obs)
    return work


def w_edges(rng, obs):
    """Extreme but legal sizes."""
    obs.hard()
    kind = int(rng.integers(6))
    obs.note(kind=kind)
    if kind == 0:                                  # the smallest models
        pc = tb.PrimitiveCell(np.eye(3), unit=tb.NM)
        pc.add_orbital((0, 0, 0), energy=float(rng.uniform(-1, 1)))
        pc.add_hopping((1, 0, 0), 0, 0, gen.cplx(rng))
        pc.sync_array()
        for k in (np.zeros(3), rng.uniform(-1, 1, 3)):
            for conv in (1, 2):
                h = np.zeros((1, 1), complex)
                pc.set_ham_dense(k, h, conv)
                pc.set_ham_csr(k, conv)
        n = int(rng.choice([3, 4, 7]))
        sc = tb.SuperCell(pc, (n, 1, 1), (True, False, False))
        vac = [(int(x), 0, 0, 0) for x in rng.permutation(n)[:int(rng.integers(0, n))]]
        if vac:
            sc.set_vacancies(vac)
        sm = tb.Sample(sc)
        sm.init_orb_eng(); sm.init_orb_pos(); sm.init_hop()
        sm.build_ham_csr(); sm.build_dxy_csr(); sm.build_ham_dxy()
    elif kind == 1:                                # supercells of extreme aspect, everything but one removed
        pc, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 4)), rmax=1, dims=1, nhop=2)
        dim = (int(rng.integers(3, 60)), 1, 1)
        sc = tb.SuperCell(pc, dim, (bool(rng.integers(2)), False, False))
        allo = [(a, 0, 0, o) for a in range(dim[0]) for o in range(rc.n)]
        keep = int(rng.integers(len(allo)))
        if rng.random() < 0.5 and len(allo) > 1:
            sc.set_vacancies([x for k, x in enumerate(allo) if k != keep])
        sc.get_orb_pos(); sc.get_orb_eng()
        for k in range(sc.num_orb_sc):
            sc.orb_id_pc2sc(sc.orb_id_sc2pc(k))
        ids = np.arange(sc.num_orb_sc)
        sc.orb_id_pc2sc_array(sc.orb_id_sc2pc_array(ids))
        sc.get_hop()
        if rng.random() < 0.5:
            sc.trim()
            sc.get_hop()
    elif kind in (2, 3, 4):                        # TBPM with extreme parameters
        while True:
            sm, rs, _, _ = gen.sample_pair(rng, max_orb=12, displaced=False)
            if rs.n >= 1 and np.max(np.abs(rs.ham())) > 1e-3:
                break
        sm.rescale_ham()
        cfg = tb.Config()
        cfg.generic.update(seed=int(rng.choice([-1, 1, 2 ** 31 - 1])), nr_time_steps=int(rng.choice([1, 2, 3])),
                           nr_random_samples=int(rng.choice([1, 2])), nr_Fermi_fft_steps=int(2 ** rng.integers(1, 8)),
                           beta=float(10 ** rng.uniform(-3, 2)) / sm.rescale,
                           mu=float(rng.uniform(-2, 2)) * sm.rescale)
        n = rs.n
        cfg.LDOS.update(site_indices=[int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]],
                        recursion_depth=int(rng.choice([2, 3, 50])))
        cfg.dyn_pol["q_points"] = rng.uniform(-1, 1, (int(rng.choice([1, 5])), 3))
        cfg.DC_conductivity["energy_limits"] = (-0.49 * sm.energy_range, 0.49 * sm.energy_range)
        cfg.quasi_eigenstates["energies"] = [float(rng.uniform(-1, 1))]
        cfg.dckb.update(n_kernel=int(rng.choice([2, 3, 20])), ne_integral=int(rng.choice([2, 3, 50])),
                        energies=[0.1], direction=int(rng.choice([1, 2])))
        with tbpmref.Out() as d:
            s = tbpmref.solver(sm, cfg, d)
            if kind == 2:
                s.calc_corr_dos(); s.calc_corr_ldos(); s.calc_corr_dyn_pol(); s.calc_quasi_eigenstates()
            elif kind == 3:
                s.calc_corr_ac_cond(); s.calc_corr_dc_cond()
                cfg.LDOS["site_indices"] = cfg.LDOS["site_indices"][:1]
                s.calc_ldos_haydock()
            else:
                mu = s.calc_hall_mu()
                tb.Analyzer(sm, cfg).calc_hall_cond(mu)
                psi = rng.normal(size=n) + 1j * rng.normal(size=n)
                s.calc_psi_t(psi, np.array([0, cfg.generic["nr_time_steps"]]))
    else:                                          # Lindhard on one point and one frequency
        pc, rc = gen.cell_pair(rng, norb=int(rng.choice([1, 2])), rmax=1)
        lin = tb.Lindhard(pc, energy_min=0.1, energy_max=1.0, energy_step=int(rng.choice([1, 2])),
                          kmesh_size=(1, 1, int(rng.choice([1, 2]))), echo_details=False, dimension=3)
        for fort in (True, False):
            lin.calc_dyn_pol_regular(np.array([[1, 0, -5]]), use_fortran=fort)
            lin.calc_dyn_pol_arbitrary(np.array([[0.1, -7.3, 2.0]]), use_fortran=fort)
            lin.calc_ac_cond("zz", use_fortran=fort)
    obs.ev("edge_calls")


def edges(variant):
    def work(rng, obs):
        obs.ev("edges:" + variant)
        w_edges(rng, obs)
    return work


def w_canary(rng, obs):
    """Arrays handed to the native code keep the guard zones around them."""
    obs.ev("canary")
    obs.hard()
    pc, rc = gen.cell_pair(rng)
    obs.note(n=rc.n)
    n = rc.n
    buf = np.full((3, n, n), np.nan + 0j)
    k = gen.kpoint(rng)
    conv = int(rng.choice([1, 2]))
    pc.sync_array()
    buf[1] = 0
    pc.set_ham_dense(k, buf[1], conv)
    obs.check(np.all(np.isnan(buf[0])) and np.all(np.isnan(buf[2])), "memory around the matrix was written")
    obs.close(buf[1], rc.ham(k, conv), "matrix inside guard zones", tol=1e-9)


WORKLOADS = {"canary": W(w_canary, 60, 600)}
for _v in ("bounds", "asan"):
    WORKLOADS[f"edges:{_v}"] = W(edges(_v), 120, 3000, variant=_v)
    for _m, _w, _q, _t in BORROW:
        WORKLOADS[f"{_m}.{_w}:{_v}"] = W(borrowed(_m, _w, _v), _q, _t, variant=_v)
