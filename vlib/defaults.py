"""An argument left out is the documented default: every public call made without its optional arguments gives what
the same call gives with the documented values spelt out.  One workload per check."""
import contextlib
import io
import os

import numpy as np

from . import gen, tbpmref
from .core import Violation
from .gen import tb

ANG, NM = 0.1, 1.0


def flat(x):
    """A result as a list of leaves."""
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in [k] + flat(x[k])]
    if hasattr(x, "toarray"):
        return [x.toarray()]
    if isinstance(x, (tuple, list)) and any(not isinstance(y, (int, float, complex, np.number)) for y in x):
        return [y for e in x for y in flat(e)]
    return [x]


def same(obs, f, kw, what):
    """f() == f(**kw), and the same with any one of kw left out."""
    want = flat(f(**kw))
    for drop in [None] + (list(kw) if len(kw) > 1 else []):
        got = flat(f(**({k: v for k, v in kw.items() if k != drop} if drop else {})))
        msg = f"{what} without {drop or sorted(kw)} differs from the documented default"
        obs.check(len(got) == len(want), msg, event="defaults")
        for a, b in zip(got, want):
            if isinstance(b, (str, type(None))) or isinstance(a, (str, type(None))):
                obs.check(a == b, f"{msg}: {a!r} != {b!r}")
            else:
                a, b = np.asarray(a), np.asarray(b)
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True):
                    raise Violation(f"{msg}: {a.reshape(-1)[:6]} {a.shape} != {b.reshape(-1)[:6]} {b.shape}")


def printed(f):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        f()
    return s.getvalue()


def cell_of(pc):
    h = {(tuple(r), *p): complex(e) for r, d in pc.hoppings.items() for p, e in d.items()}
    return [pc.lat_vec, pc.origin, [o.position for o in pc.orbitals], [o.energy for o in pc.orbitals],
            [[o.label for o in pc.orbitals]], sorted(str(k) for k in h), [h[k] for k in sorted(h)]]


def c01(rng, obs):
    pc, rc = gen.cell_pair(rng)
    k = rng.uniform(-1, 1, 3)

    def dense(m, name):
        def f(**kw):
            h = np.zeros((rc.n, rc.n), complex)
            getattr(m, name)(k, h, **kw)
            return h
        return f
    pc.sync_array()
    same(obs, dense(pc, "set_ham_dense"), dict(convention=1), "set_ham_dense")
    same(obs, lambda **kw: pc.set_ham_csr(k, **kw), dict(convention=1), "set_ham_csr")
    same(obs, lambda **kw: printed(lambda: pc.print_hk(**kw)), dict(convention=1), "print_hk")
    bare = tb.PrimitiveCell(rc.lat, unit=NM)
    for exc in (tb.PCOrbEmptyError, tb.PCHopEmptyError):
        bare.sync_array()
        for what, f in (("set_ham_dense", lambda: dense(bare, "set_ham_dense")()), ("print_hk", bare.print_hk),
                        ("set_ham_csr", lambda: bare.set_ham_csr(k))):
            obs.raises(exc, f, f"{what} of a cell with {bare.num_orb} orbitals and no hoppings")
        bare.add_orbital((0.1, 0.2, 0.3), 1.0)
    ov = tb.Overlap(pc)
    ov.set_onsite(0, 0.5)
    ov.add_offsite((1, 0, 0), 0, 0, 0.1 + 0.05j)
    for (r, i, j) in list(rc.hop)[:3]:
        if i != j:
            ov.add_offsite(r, i, j, 0.1 + 0.05j)
    ov.sync_array()
    same(obs, dense(ov, "set_overlap_dense"), dict(convention=1), "set_overlap_dense")
    same(obs, lambda **kw: ov.set_overlap_csr(k, **kw), dict(convention=1), "set_overlap_csr")

    def onsite(**kw):
        ov.set_onsite(0, 0.25)
        ov.set_onsite(0, **kw)
        return ov.get_orbital(0).energy
    same(obs, onsite, dict(overlap=1.0), "set_onsite")
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=30)
    for f in (sm.init_orb_eng, sm.init_orb_pos, sm.init_hop):
        f()

    def sdense(**kw):
        h = np.zeros((rs.n, rs.n), complex)
        sm.set_ham_dense(k, h, **kw)
        return h
    same(obs, sdense, dict(convention=1), "set_ham_dense of a sample")
    same(obs, lambda **kw: sm.set_ham_csr(k, **kw), dict(convention=1), "set_ham_csr of a sample")


def c02(rng, obs):
    lat = gen.lattice(rng)
    o = rng.uniform(-1, 1, 3)
    p = tuple(float(x) for x in rng.uniform(-2, 2, 3))
    same(obs, lambda **kw: cell_of(tb.PrimitiveCell(**kw)), dict(lat_vec=np.eye(3), origin=np.zeros(3), unit=ANG),
         "PrimitiveCell")
    same(obs, lambda **kw: cell_of(tb.PrimitiveCell(lat, o, **kw)), dict(unit=ANG), "PrimitiveCell of a lattice")

    def orb(name, pre=None):
        def f(*a, **kw):
            pc = tb.PrimitiveCell(lat, o, unit=NM)
            if pre:
                pre(pc)
            getattr(pc, name)(*a, **kw)
            return cell_of(pc)
        return f
    same(obs, lambda **kw: orb("add_orbital")(p, **kw), dict(energy=0.0, label="X"), "add_orbital")
    same(obs, lambda **kw: orb("add_orbital_cart")(p, **kw), dict(unit=ANG, energy=0.0, label="X"), "add_orbital_cart")
    pre = lambda pc: pc.add_orbital((0.1, 0.2, 0.3), 0.7, "Q")
    same(obs, lambda **kw: orb("set_orbital", pre)(0, **kw), dict(position=(0.1, 0.2, 0.3), energy=0.7, label="Q"),
         "set_orbital")
    same(obs, lambda **kw: orb("set_orbital_cart", pre)(0, p, **kw), dict(unit=ANG, energy=0.7, label="Q"),
         "set_orbital_cart")
    new, o2 = gen.lattice(rng), rng.uniform(-1, 1, 3)
    same(obs, lambda **kw: orb("reset_lattice", pre)(new, o2, **kw), dict(unit=ANG, fix_orb=True), "reset_lattice")
    same(obs, lambda **kw: orb("reset_lattice", pre)(unit=NM, **kw), dict(lat_vec=lat, origin=o), "reset_lattice")

    def pbc(**kw):
        pc, _ = gen.cell_pair(np.random.default_rng(seed), dims=3)
        pc.apply_pbc(**kw)
        return cell_of(pc)
    seed = int(rng.integers(1 << 30))
    same(obs, pbc, dict(pbc=(True, True, True)), "apply_pbc")


def c05(rng, obs):
    pc, rc = gen.small_cell(rng, connected=True)
    dim = gen.super_spec(rng, rc)[0]

    def net(dim):
        def f(**kw):
            sc = tb.SuperCell(pc, dim, **kw)
            a = sc.get_hop()
            o = np.lexsort(np.round(a[3], 6).T[::-1].tolist() + [a[1], a[0]])
            return [x[o] for x in a] + [sc.get_orb_pos(), sc.get_orb_eng()]
        return f
    same(obs, net(dim), dict(pbc=(False,) * 3, vacancies=[], orb_pos_modifier=None), "SuperCell")
    if dim[2] == 1:
        p2 = tuple(bool(x) for x in rng.integers(0, 2, 2))
        for x, y in zip(net(dim[:2])(pbc=p2), net(dim)(pbc=p2 + (False,))):
            obs.close(x, y, "two-dimensional SuperCell", tol=1e-9, event="defaults")
    sc = tb.SuperCell(pc, dim, (True,) * 3)
    obs.close(sc.get_lattice_area(), sc.get_lattice_area("c"), "default direction", event="defaults")


def c06(rng, obs):
    pc, rc = gen.small_cell(rng, connected=True, eng=lambda r: float(r.choice([0.0, 0.7e-5, -0.7e-5, 1.6e-5, 1.0])))
    dim = gen.super_spec(rng, rc)[0]
    sm = tb.Sample(tb.SuperCell(pc, dim, (True,) * 3))
    sm.rescale_ham(1.0)
    same(obs, lambda **kw: list(sm.build_ham_dxy(**kw)), dict(orb_eng_cutoff=1e-5, algo="fast", sort_col=False),
         "build_ham_dxy")
    with tbpmref.Out() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            sm.save_array()
            obs.check(os.path.isdir("sample") and os.listdir(".") == ["sample"], "save_array does not write to sample",
                      event="defaults")
            s2 = tb.Sample(tb.SuperCell(pc, dim, (True,) * 3))
            s2.load_array()
            for a in ("orb_eng", "orb_pos", "hop_i", "hop_j", "hop_v", "dr"):
                obs.close(getattr(s2, a), getattr(sm, a), f"load_array: {a}", event="defaults")
        finally:
            os.chdir(old)


def c08(rng, obs):
    seed = int(rng.integers(1 << 30))
    b = float(rng.uniform(1, 100))

    def f(**kw):
        sm = gen.sample_pair(np.random.default_rng(seed), pbc=(False,) * 3, max_orb=40)[0]
        sm.set_magnetic_field(b, **kw)
        return sm.hop_v
    same(obs, f, dict(gauge=0), "set_magnetic_field")


def c09(rng, obs):
    pc, rc = gen.cell_pair(rng, rmax=1)
    same(obs, lambda **kw: cell_of(tb.extend_prim_cell(pc, **kw)), dict(dim=(1, 1, 1)), "extend_prim_cell")
    seed, ang, sh = int(rng.integers(1 << 30)), float(rng.uniform(-3, 3)), float(rng.uniform(-1, 1))

    def spiral(*a):
        def f(**kw):
            c = gen.cell_pair(np.random.default_rng(seed))[0]
            tb.spiral_prim_cell(c, *a, **kw)
            return cell_of(c)
        return f
    same(obs, spiral(), dict(angle=0.0, center=np.zeros(3), shift=0.0), "spiral_prim_cell")
    same(obs, spiral(ang), dict(center=np.zeros(3), shift=0.0), "spiral_prim_cell by an angle")
    same(obs, lambda **kw: [(str(t.rn), str(t.pair), t.rij, t.distance) for t in tb.find_neighbors(pc, **kw)],
         dict(cell_ket=pc, a_max=0, b_max=0, c_max=0, max_distance=1.0), "find_neighbors")
    same(obs, lambda **kw: [(str(t.rn), str(t.pair), t.distance) for t in tb.find_neighbors(
        pc, a_max=2, b_max=2, c_max=2, **kw)], dict(cell_ket=pc, max_distance=1.0), "find_neighbors")
    m = np.diag(rng.integers(1, 3, 3))
    same(obs, lambda **kw: cell_of(tb.reshape_prim_cell(pc, m, **kw)), dict(delta=0.01, pos_tol=1e-5),
         "reshape_prim_cell")


def c10(rng, obs):
    sk, r = tb.SK(), rng.normal(size=3)
    par = {k: gen.cplx(rng) for k in "v_sss v_sps v_sds v_pps v_ppp v_pds v_pdp v_dds v_ddp v_ddd".split()}
    pick = lambda *n: {k: par[k] for k in n}
    same(obs, lambda **kw: sk.eval(r, **{**par, **kw}), dict(label_i="s", label_j="s"), "SK.eval")
    zero = {k: 0.0 for k in par}
    for _ in range(8):
        li, lj = (str(x) for x in rng.choice(["s", "px", "py", "pz", "dxy", "dyz", "dzx", "dx2-y2", "dz2"], 2))
        give = {k: v for k, v in par.items() if rng.random() < 0.5}
        same(obs, lambda **kw: sk.eval(r, label_i=li, label_j=lj, **{**give, **kw}),
             {k: 0.0 for k in zero if k not in give} or dict(), f"SK.eval {li} {lj}")
    same(obs, lambda **kw: sk.ss(**kw), dict(v_sss=0.0), "SK.ss")
    for name, lab, v in (("sp", dict(label_p="px"), ["v_sps"]), ("sd", dict(label_d="dxy"), ["v_sds"]),
                         ("pp", dict(label_i="px", label_j="px"), ["v_pps", "v_ppp"]),
                         ("pd", dict(label_p="px", label_d="dxy"), ["v_pds", "v_pdp"]),
                         ("dd", dict(label_i="dxy", label_j="dxy"), ["v_dds", "v_ddp", "v_ddd"]),
                         ("ps", dict(label_p="px"), ["v_sps"]), ("ds", dict(label_d="dxy"), ["v_sds"]),
                         ("dp", dict(label_p="px", label_d="dxy"), ["v_pds", "v_pdp"])):
        f = getattr(sk, name)
        same(obs, lambda **kw: f(r, **{**pick(*v), **kw}), lab, f"SK.{name}")
        for x in v:
            same(obs, lambda **kw: f(r, **{**pick(*[y for y in v if y != x]), **kw}), {x: 0.0}, f"SK.{name}")
    for cls in (tb.SOC, tb.SOCTable, tb.SOCTable2):
        s = cls()
        if cls is not tb.SOCTable2:
            same(obs, lambda **kw: s.eval(**kw), dict(label_i="s", spin_i="up", label_j="s", spin_j="down"),
                 f"{cls.__name__}.eval")
        same(obs, lambda **kw: s.eval(label_i="px", label_j="pz", **kw), dict(spin_i="up", spin_j="down"),
             f"{cls.__name__}.eval")
    s = tb.SOC()
    same(obs, lambda **kw: printed(lambda: s.print_soc_table(**kw)), dict(spin_i="up", spin_j="up"), "print_soc_table")


def c11(rng, obs):
    pc, rc = gen.cell_pair(rng, norb=int(rng.integers(2, 5)))
    ks = np.array([gen.kpoint(rng) for _ in range(3)])
    full = dict(e_step=0.05, sigma=0.05, basis="Gaussian", g_s=1, convention=1, solver="lapack")
    s = tb.DiagSolver(pc, echo_details=False)
    e = rc.bands(ks) if hasattr(rc, "bands") else np.array([np.linalg.eigvalsh(rc.ham(k, 1)) for k in ks])
    lo, hi = float(e.min()), float(e.max())
    same(obs, lambda **kw: list(s.calc_bands(ks, **kw)), dict(convention=1, solver="lapack", orbital_indices=None),
         "calc_bands")
    same(obs, lambda **kw: list(s.calc_dos(ks, **kw)), full, "calc_dos")
    if abs((hi - lo) / 0.05 - round((hi - lo) / 0.05)) > 1e-6:
        same(obs, lambda **kw: list(s.calc_dos(ks, **kw)), dict(e_min=lo, e_max=hi), "calc_dos")
    same(obs, lambda **kw: list(s.calc_states(ks, **kw)), dict(convention=1, solver="lapack", all_reduce=True),
         "calc_states")
    same(obs, lambda **kw: list(pc.calc_bands(ks, echo_details=False, **kw)), dict(enable_mpi=False), "calc_bands")
    same(obs, lambda **kw: list(pc.calc_dos(ks, echo_details=False, **kw)), dict(enable_mpi=False, g_s=1), "calc_dos")
    a = printed(lambda: tb.DiagSolver(pc))
    b = printed(lambda: tb.DiagSolver(pc, echo_details=True))
    obs.check(a == b and "MPI disabled" in a, f"details echoed by default: {a!r}", event="defaults")
    obs.check(printed(lambda: tb.DiagSolver(pc, echo_details=False)) == "", "details echoed though not wanted")
    f = tb.FakePC(2)
    obs.close(f.lat_vec, 0.1 * np.eye(3), "FakePC", event="defaults")
    obs.raises(ValueError, lambda: tb.FakePC(2, np.eye(2)), "lattice of two vectors")
    obs.raises(ValueError, lambda: tb.FakePC(2, np.ones(3)), "lattice of one vector")
    obs.close(tb.FakePC(2, rc.lat).lat_vec, rc.lat * 0.1, "FakePC", event="defaults")


def c12(rng, obs):
    from tbplas import utils
    n, g = int(rng.integers(2, 30)), int(rng.integers(1, 6))
    x = list(range(n))
    if g <= n:
        same(obs, lambda **kw: [[len(y)] + y for y in utils.split_list(x, g, **kw)], dict(algorithm="remainder"),
             "split_list")
    same(obs, lambda **kw: [list(y) for y in utils.split_range(n, **kw)], dict(num_group=1), "split_range")
    obs.check(not tb.MPIEnv().mpi_enabled, "MPI is on by default", event="defaults") if hasattr(tb, "MPIEnv") else 0


def c13(rng, obs):
    dim = int(rng.choice([2, 3]))
    lat = gen.lattice(rng, two_d=dim == 2)
    pc, rc = gen.cell_pair(rng, norb=2, lat=lat, rmax=1, dims=2 if dim == 2 else None)
    size = (2, 2, 1) if dim == 2 else (2, 1, 2)
    q = rng.uniform(-5, 5, (1, 3)) * ([1, 1, 0] if dim == 2 else 1)
    par = dict(energy_min=0.0, energy_max=10.0, energy_step=1000, mu=0.0, temperature=300.0, g_s=1, back_epsilon=1.0,
               delta=0.005)
    if dim == 3:
        par["dimension"] = 3

    def f(**kw):
        lin = tb.Lindhard(pc, kmesh_size=size, echo_details=False, **({} if dim == 3 else {"dimension": 2}), **kw)
        om, dp = lin.calc_dyn_pol_arbitrary(q)
        ac = lin.calc_ac_cond("xy")[1]
        return [om, dp, ac, lin.calc_epsilon(q, dp)]
    same(obs, f, par, "Lindhard")
    lin = tb.Lindhard(pc, kmesh_size=size, energy_step=5, dimension=dim, echo_details=False)
    same(obs, lambda **kw: list(lin.calc_ac_cond(**kw)), dict(component="xx", use_fortran=True), "calc_ac_cond")
    for name in ("frac2cart", "cart2frac"):
        same(obs, lambda **kw: getattr(lin, name)(q, **kw), dict(unit=NM), name)
    same(obs, lambda **kw: lin.grid2cart(np.array([[1, 2, 3]]), **kw), dict(unit=NM), "grid2cart")


def c14(rng, obs):
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=20)
    sm.rescale_ham(float(1.1 * np.abs(np.linalg.eigvalsh(rs.ham())).max() + 0.1))
    psi = rng.normal(size=rs.n) + 1j * rng.normal(size=rs.n)
    cfg = tb.Config()
    cfg.generic["nr_time_steps"] = 8
    with tbpmref.Out() as d:
        s = tbpmref.solver(sm, cfg, d)
        t = [0, 3, 7]
        same(obs, lambda **kw: s.calc_psi_t(psi.copy(), t, **kw), dict(dt_scale=1.0), "calc_psi_t")
        before = sorted(os.listdir(d))
        s.calc_psi_t(psi.copy(), t)
        s.calc_quasi_eigenstates()
        obs.check(sorted(os.listdir(d)) == before, "data saved although not asked for", event="defaults")
        # the time step that is reported is the one of the propagation
        scale = float(rng.uniform(0.3, 2))
        cfg.generic["nr_Fermi_fft_steps"] = 512
        half = np.pi / sm.energy_range * 0.6582119569
        for f, want in ((s.calc_corr_dos, 2), (s.calc_corr_ldos, 2), (s.calc_corr_ac_cond, 1), (s.calc_corr_dyn_pol, 1),
                        (s.calc_corr_dc_cond, 2), (s.calc_quasi_eigenstates, 2),
                        (lambda: s.calc_psi_t(psi.copy(), t, dt_scale=scale), 2 * scale)):
            got = [float(x.split()[-2]) for x in printed(f).splitlines() if x.startswith("Time step")]
            obs.check(len(got) == 1 and abs(got[0] - want * half) < 6e-4, f"reported time step {got}, "
                      f"{want * half:.4f} fs expected", event="reports")


def c17(rng, obs):
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=20, nsup=1)
    sm.rescale_ham(float(1.1 * np.abs(np.linalg.eigvalsh(rs.ham())).max() + 0.1))
    cfg = tb.Config()
    tnr, nk = int(rng.integers(4, 20)), 4
    cfg.generic["nr_time_steps"] = tnr
    cfg.dckb.update(n_kernel=nk, ne_integral=20)
    cfg.DC_conductivity["energy_limits"] = (-sm.energy_range, sm.energy_range)
    z = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
    c1, c4, cd, mu = z(tnr), z(4, tnr), z(2, 2 * tnr, tnr), z(nk, nk)
    ldos = c1
    win = dict(hanning=tb.window_hanning, exp=tb.window_exp, ten=tb.window_exp_ten)

    def f(**kw):
        an = tb.Analyzer(sm, cfg, **kw)
        return [list(an.calc_ac_cond(c4)), list(an.calc_dc_cond(c1, cd))]
    same(obs, f, dict(dimension=3, enable_mpi=False, echo_details=False), "Analyzer")
    an = tb.Analyzer(sm, cfg)
    same(obs, lambda **kw: list(an.calc_dos(np.r_[1.0, c1][:tnr + 1], **kw)), dict(window=win["hanning"]), "calc_dos")
    same(obs, lambda **kw: list(an.calc_ldos(np.r_[1.0, ldos][:tnr + 1], **kw)), dict(window=win["hanning"]), "calc_ldos")
    same(obs, lambda **kw: list(an.calc_ac_cond(c4, **kw)), dict(window=win["exp"]), "calc_ac_cond")
    same(obs, lambda **kw: list(an.calc_dyn_pol(z0, **kw)), dict(window=win["ten"]), "calc_dyn_pol") \
        if (z0 := rng.normal(size=(1, tnr))) is not None else 0
    same(obs, lambda **kw: list(an.calc_dc_cond(c1, cd, **kw)), dict(window_dos=win["hanning"], window_dc=win["exp"]),
         "calc_dc_cond")
    same(obs, lambda **kw: list(an.calc_diff_coeff(cd, **kw)), dict(window_dc=win["exp"]), "calc_diff_coeff")
    an2 = tb.Analyzer(sm, cfg, dimension=2)
    same(obs, lambda **kw: list(an2.calc_hall_cond(mu, **kw)), dict(unit="h_bar"), "calc_hall_cond")


def c19(rng, obs):
    with tbpmref.Out() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            with open("wannier90.win", "w") as f:
                f.write("begin unit_cell_cart\nAng\n2.0 0.0 0.0\n0.3 2.5 0.0\n0.0 0.1 3.0\nend unit_cell_cart\n")
            with open("wannier90_centres.xyz", "w") as f:
                f.write("3\nt\nX 0.1 0.2 0.3\nX 1.0 1.1 0.9\nC 0 0 0\n")
            val = lambda: float(rng.choice([0.6e-5, 1.5e-5, 0.5]))
            h = {(0, i, j): val() for i in (1, 2) for j in range(i, 3)}
            h.update({(1, i, j): val() for i in (1, 2) for j in (1, 2)})
            h.update({(-r, j, i): v for (r, i, j), v in list(h.items())})
            with open("wannier90_hr.dat", "w") as f:
                f.write("t\n2\n3\n    1    1    1\n")
                for r in (-1, 0, 1):
                    for j in (1, 2):
                        for i in (1, 2):
                            f.write(f"{r:5d}{0:5d}{0:5d}{i:5d}{j:5d}{h[(r, i, j)]:14.8f}{0.0:12.6f}\n")
            with open("wannier90_wsvec.dat", "w") as f:
                f.write("t\n")
                for r in (-1, 0, 1):
                    for i in (1, 2):
                        for j in (1, 2):
                            f.write(f"{r} 0 0 {i} {j}\n1\n0 {i - j} 0\n")
            same(obs, lambda **kw: cell_of(tb.wan2pc(**kw)), dict(seed_name="wannier90", correct_hop=False,
                                                                  hop_eng_cutoff=1e-5), "wan2pc")
        finally:
            os.chdir(old)


def c20(rng, obs):
    import time
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=12, nsup=1)
    sm.rescale_ham(float(1.1 * np.abs(np.linalg.eigvalsh(rs.ham())).max() + 0.1))
    cfg = tb.Config()
    cfg.generic.update(nr_time_steps=4, seed=int(rng.integers(1, 999)))
    with tbpmref.Out() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            t0 = int(time.time())
            s = tb.Solver(sm, cfg, echo_details=False)
            t1 = int(time.time()) + 1
            c = s.calc_corr_dos()
            obs.check(os.listdir(".") == ["sim_data"], f"default output folder: {os.listdir('.')}", event="defaults")
            names = sorted(os.listdir("sim_data"))
            pre = names[0].split(".")[0]
            obs.check(pre.isdigit() and t0 <= int(pre) <= t1, f"default prefix {pre!r} is not the time", event="defaults")
            obs.check(names == [f"{pre}.config.pkl", f"{pre}.corr_DOS.npy"], f"files {names}", event="defaults")
            obs.check(np.array_equal(np.load(f"sim_data/{names[1]}"), c), "saved data", event="defaults")
            s.set_output(prefix="b")
            s.set_output(directory="other", prefix="c")
            s.save_config()
            obs.check(sorted(os.listdir(".")) == ["other", "sim_data"] and os.listdir("other") == ["c.config.pkl"]
                      and "b.config.pkl" in os.listdir("sim_data"), "set_output and save_config", event="defaults")
            txt = printed(lambda: tb.Solver(sm, cfg, directory="other", prefix="d"))
            word = [x.split(":", 1)[1].strip() for x in txt.splitlines() if x.strip().startswith(("Directory", "Prefix"))]
            obs.check(word == ["other", "d"], f"reported output {word}", event="reports")
            obs.check("MPI disabled" in txt, "details are echoed by default", event="defaults")
        finally:
            os.chdir(old)


def c21(rng, obs):
    from tbplas.base import lattice as lt
    full = dict(a=1.0, b=1.0, c=1.0, alpha=90.0, beta=90.0, gamma=90.0)
    same(obs, lambda **kw: tb.gen_lattice_vectors(**kw), full, "gen_lattice_vectors")
    mine = dict(a=1.3, b=2.1, c=0.7, alpha=80.0, beta=95.0, gamma=110.0)
    for k in full:
        rest = {x: y for x, y in mine.items() if x != k}
        same(obs, lambda **kw: tb.gen_lattice_vectors(**rest, **kw), {k: full[k]}, "gen_lattice_vectors")
    lat, x = gen.lattice(rng), rng.normal(size=(4, 3))
    same(obs, lambda **kw: tb.cart2frac(lat, x, **kw), dict(origin=np.zeros(3)), "cart2frac")
    same(obs, lambda **kw: tb.frac2cart(lat, x, **kw), dict(origin=np.zeros(3)), "frac2cart")
    same(obs, lambda **kw: tb.rotate_coord(x, **kw), dict(angle=0.0, axis="z", center=np.zeros(3)), "rotate_coord")
    same(obs, lambda **kw: tb.rotate_coord(x, 0.7, **kw), dict(axis="z", center=np.zeros(3)), "rotate_coord")
    same(obs, lambda **kw: lt.get_lattice_area(lat, **kw), dict(direction="c"), "get_lattice_area")
    pc, rc = gen.cell_pair(rng)
    same(obs, lambda **kw: pc.get_lattice_area(**kw), dict(direction="c"), "get_lattice_area")


def c22(rng, obs):
    pc, rc = gen.cell_pair(rng, norb=3, rmax=1, dims=2)
    z2 = tb.Z2(pc, num_occ=int(rng.integers(1, 3)), echo_details=False)
    kb = rng.uniform(-0.5, 0.5, 2)
    ka = np.linspace(-0.5, 0.5, 200)
    same(obs, lambda **kw: list(z2.calc_phases(kb_array=kb, **kw)), dict(ka_array=ka, kc=0.0), "calc_phases")
    same(obs, lambda **kw: list(z2.calc_phases(ka_array=ka[::50], **kw)), dict(kb_array=np.linspace(0, 0.5, 100)),
         "calc_phases")
    t = np.linspace(0, 1, 40)
    ph = np.sort(np.stack([np.sin(5 * t + a) for a in rng.uniform(0, 6, z2.num_occ)], 1), axis=1)
    same(obs, lambda **kw: z2.reorder_phases(ph, **kw), dict(threshold=0.1, smooth=True), "reorder_phases")
    ph = rng.uniform(0, 1, (30, 2))
    same(obs, lambda **kw: z2.count_crossing(ph, **kw), dict(phase_ref=0.5), "count_crossing")


def c24(rng, obs):
    pc, rc = gen.cell_pair(rng, norb=1, rmax=1)
    vis = tb.Visualizer()
    size = np.array([0.03, 0.02, 0.035])

    def cube(**kw):
        vis.plot_wfc3d(pc, np.array([0.7 + 0.2j]), [(1, 2, 1, 0)], cube_size=size, **kw)
        txt = open("wfc.cube").read()
        os.remove("wfc.cube")
        return txt
    same(obs, cube, dict(convention=1, k_point=[0, 0, 0], rn_max=[0, 0, 0], cube_name="wfc.cube", resolution=0.005,
                         kind="real", cube_origin=list(rc.pos_nm()[0])), "plot_wfc3d")
