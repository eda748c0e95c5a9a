"""C20: parameters and saved data survive disk unchanged."""
import copy
import os

import numpy as np

from vlib import defaults, gen, tbpmref
from vlib.core import Violation
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random legal parameter sets and misspelt ones in every section; random sequences of "
        "calculations by several solvers with different directories and prefixes. "
        "Non-trivial: at least two solvers or a misspelt parameter. Oracle: the configuration "
        "read back equals the one given, key by key; every file equals the last result written under its "
        "name; no other file appears.")
REQUIRED = ["round_trips", "refused", "files_compared", "prefixes", "directories_made", "temperature", "defaults", "reports",
            "false_values", "wrong_section"]
SECTIONS = ["generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb", "quasi_eigenstates"]
FORBIDDEN = set()


def rand_cfg(rng, n=4):
    c = tb.Config()
    c.generic.update(
        Bessel_max=int(rng.integers(60, 500)), Bessel_precision=float(10 ** rng.uniform(-15, -13)),
        beta=float(10 ** rng.uniform(-1, 2)), mu=float(rng.uniform(-1, 1)),
        correct_spin=bool(rng.integers(2)), nr_time_steps=int(rng.integers(2, 9)),
        nr_random_samples=int(rng.integers(1, 4)), seed=int(rng.integers(1, 10 ** 6)),
        wfn_check_steps=int(rng.integers(1, 200)), nr_Fermi_fft_steps=2 ** int(rng.integers(8, 12)))
    c.LDOS.update(site_indices=[int(rng.integers(n))], delta=float(rng.uniform(0.01, 1)),
                  recursion_depth=int(rng.integers(2, 30)))
    c.dyn_pol.update(q_points=[[float(x) for x in rng.uniform(-1, 1, 3)]
                               for _ in range(int(rng.integers(1, 3)))],
                     coulomb_constant=float(rng.uniform(0.5, 2)))
    c.dckb.update(n_kernel=int(rng.integers(2, 8)), direction=int(rng.integers(1, 3)),
                  energies=[float(x) for x in rng.uniform(-1, 1, 2)])
    c.quasi_eigenstates["energies"] = [float(x) for x in rng.uniform(-1, 1, 3)]
    c.DC_conductivity["energy_limits"] = (-float(rng.uniform(0.5, 3)), float(rng.uniform(0.5, 3)))
    return c


def content(c):
    return {s: copy.deepcopy(getattr(c, s)) for s in SECTIONS}


def model(rng):
    sm, rs, _, _ = gen.sample_pair(rng, max_orb=20, nsup=1)
    sm.rescale_ham(float(rng.uniform(1, 2)) * max(1.0, np.abs(np.linalg.eigvalsh(rs.ham())).max()))
    return sm, rs


# as documented with the class (the documentation of Bessel_max lags behind and is left out)
DEFAULTS = {
    "generic": dict(Bessel_precision=1e-14, mu=0.0, correct_spin=False, nr_random_samples=1, nr_time_steps=1024,
                    seed=1337, wfn_check_steps=128, wfn_check_thr=1e-9, Fermi_cheb_precision=1e-12,
                    nr_Fermi_fft_steps=2 ** 15),
    "LDOS": dict(site_indices=[0], wf_weights=[1.0], delta=0.01, recursion_depth=2000),
    "dyn_pol": dict(background_dielectric_constant=1.0, coulomb_constant=1.0, q_points=[[1.0, 0.0, 0.0]]),
    "DC_conductivity": dict(energy_limits=(-0.5, 0.5)),
    "dckb": dict(energies=np.linspace(-0.2, 0.2, 41), n_kernel=2048, direction=1, ne_integral=2048),
    "quasi_eigenstates": dict(energies=[-0.1, 0.0, 0.1])}


def config_defaults(obs):
    c = tb.Config()
    for sec, d in DEFAULTS.items():
        for k, v in d.items():
            obs.close(np.asarray(getattr(c, sec)[k], float), np.asarray(v, float), f"default of {sec}[{k!r}]",
                      tol=1e-12, event="defaults")
    obs.close(c.generic["beta"] * 300 * 8.617333262e-5, 1.0, "default of beta", tol=1e-6)
    b = c.generic["beta"]
    c.set_temperature(77)
    c.set_temperature()
    obs.close(c.generic["beta"], b, "default temperature", tol=1e-12)
    other = tb.Config()
    c.LDOS["site_indices"].append(3)
    c.quasi_eigenstates["energies"].append(3.0)
    c.generic["seed"] = 1
    obs.check(other.LDOS["site_indices"] == [0] and other.generic["seed"] == 1337
              and tb.Config().LDOS["site_indices"] == [0] and len(tb.Config().quasi_eigenstates["energies"]) == 3,
              "configurations share their values")


def w_config(rng, obs):
    config_defaults(obs)
    sm, rs = model(rng)
    c = rand_cfg(rng, rs.n)
    t = float(10 ** rng.uniform(-2, 4.5))
    c.set_temperature(t)
    obs.close(c.generic["beta"] * t * 8.617333262e-5, 1.0, "beta", tol=1e-6, event="temperature")
    if rng.random() < 0.2:          # values that count as false
        c.LDOS["site_indices"] = [0]
        c.quasi_eigenstates["energies"] = []
        c.dckb["energies"] = []
        c.DC_conductivity["energy_limits"] = (0.0, 0.0)
        c.LDOS.update(wf_weights=[], delta=0.0)
        c.generic.update(mu=0.0, correct_spin=False)
        obs.ev("false_values")
    want = content(c)
    with tbpmref.Out() as d:
        sub = f"{d}/new"
        s = tb.Solver(sm, c, echo_details=False, directory=sub, prefix="p")
        obs.check(os.path.isdir(sub), "output directory was not made", event="directories_made")
        back = tb.read_config(f"{sub}/p.config.pkl")
        obs.check(content(back) == want, lambda: "configuration read back differs: "
                  + str([(k, q) for k in SECTIONS for q in want[k]
                         if content(back)[k].get(q) != want[k][q]]), event="round_trips")
        back.check_params()
        obs.check(content(c) == want, "making a solver changed the configuration")
        # the configuration read back works the same
        s2 = tb.Solver(sm, back, echo_details=False, directory=sub, prefix="q")
        a, b = s.calc_corr_dos(), s2.calc_corr_dos()
        obs.close(a, b, "calculation with the configuration read back", tol=1e-12)
        # a second solver saves its own configuration, under another name
        c.generic["seed"] += 1
        s.save_config("other.pkl")
        obs.check(tb.read_config(f"{sub}/p.other.pkl").generic["seed"] == want["generic"]["seed"] + 1,
                  "save_config did not save the present configuration", event="round_trips")
        obs.check(content(tb.read_config(f"{sub}/p.config.pkl")) == want,
                  "an earlier saved configuration changed")
        # misspelt parameters
        sec = str(rng.choice(SECTIONS))
        key = str(rng.choice(list(getattr(c, sec))))
        bad = str(rng.choice([key.upper() + "_", key[:-1], key + "s", "x" + key]))
        if rng.random() < 0.3:      # in the wrong section
            bad = str(rng.choice(list(getattr(c, str(rng.choice(SECTIONS))))))
            obs.ev("wrong_section")
        if bad not in getattr(c, sec):
            getattr(c, sec)[bad] = 1
            obs.raises(ValueError, lambda: tb.Solver(sm, c, echo_details=False, directory=sub,
                                                     prefix="bad"),
                       f"misspelt parameter {sec}[{bad!r}] given to Solver", event="refused")
            obs.raises(ValueError, lambda: tb.Analyzer(sm, c), f"misspelt parameter {sec}[{bad!r}] "
                       "given to Analyzer", event="refused")
            obs.raises(ValueError, c.check_params, f"misspelt parameter {sec}[{bad!r}]",
                       event="refused")
            obs.check(not any(f.startswith("bad.") for f in os.listdir(sub)),
                      "a refused configuration was saved")
    obs.note(section=sec, bad=bad, values=str(want)[:400])
    obs.hard()


def w_files(rng, obs):
    sm, rs = model(rng)
    with tbpmref.Out() as d:
        dirs = [f"{d}/a", f"{d}/b"]
        solvers, files = [], {}

        def made(path, what):
            files[path] = what
        for i in range(int(rng.integers(1, 4))):
            c = rand_cfg(rng, rs.n)
            if rng.random() < 0.1:
                c.generic["nr_time_steps"] = int(rng.integers(40, 90))
            stem = rng.choice(["r", "run", "run.1", "x", "two words", "a_rather-long.prefix_" * 3])
            di, pre = dirs[int(rng.integers(2))], f"{stem}{i}"
            solvers.append([tb.Solver(sm, c, echo_details=False, directory=di, prefix=pre), c, di, pre])
            made(f"{di}/{pre}.config.pkl", content(c))
        ops = []
        for _ in range(int(rng.integers(3, 9))):
            k = int(rng.integers(len(solvers)))
            s, c, di, pre = solvers[k]
            if rng.random() < 0.15:
                di, pre = dirs[int(rng.integers(2))], f"new{len(ops)}"
                s.set_output(directory=di, prefix=pre)
                made(f"{di}/{pre}.config.pkl", content(c))
                solvers[k][2:] = [di, pre]
            if rng.random() < 0.2:
                c.generic["seed"] = int(rng.integers(1, 10 ** 6))
            op = str(rng.choice(["DOS", "LDOS", "AC", "dp", "DC", "hall", "qe", "hay", "psi"]))
            ops.append((k, op))
            f = f"{di}/{pre}."
            if op == "DOS":
                made(f + "corr_DOS.npy", s.calc_corr_dos())
            elif op == "LDOS":
                made(f + "corr_LDOS.npy", s.calc_corr_ldos())
            elif op == "AC":
                made(f + "corr_AC.npy", s.calc_corr_ac_cond())
            elif op == "dp":
                made(f + "corr_dyn_pol.npy", s.calc_corr_dyn_pol())
            elif op == "DC":
                a, b = s.calc_corr_dc_cond()
                made(f + "corr_DOS.npy", a)
                made(f + "corr_DC.npy", b)
            elif op == "hall":
                made(f + "hall_mu.npy", s.calc_hall_mu())
            elif op == "hay":
                made(f + "ldos_haydock.npy", s.calc_ldos_haydock()[1])
            elif op == "qe":
                save = bool(rng.integers(2))
                r = s.calc_quasi_eigenstates(save_data=save)
                if save:
                    made(f + "qe.npy", r)
            else:
                save = bool(rng.integers(2))
                r = s.calc_psi_t(rng.normal(size=rs.n), [0, 1], save_data=save)
                if save:
                    made(f + "psi_t.npy", r)
        there = {f"{x}/{y}" for x in dirs if os.path.isdir(x) for y in os.listdir(x)}
        obs.check(there == set(files), f"files {sorted(there ^ set(files))} missing or unexpected "
                  f"after {ops}")
        for path, want in files.items():
            if path.endswith(".pkl"):
                obs.check(content(tb.read_config(path)) == want, f"{os.path.basename(path)} after {ops}",
                          event="files_compared")
            else:
                got = np.load(path)
                obs.check(got.dtype == want.dtype, f"{os.path.basename(path)}: type {got.dtype}")
                if not np.array_equal(got, want, equal_nan=True):
                    raise Violation(f"{os.path.basename(path)} differs from what the calculation "
                                    f"returned, after {ops}")
                obs.ev("files_compared")
        obs.ev("prefixes", len(solvers) > 1)
    obs.note(ops=ops, solvers=len(solvers))
    obs.hard(len(solvers) > 1)


WORKLOADS = {"defaults": W(defaults.c20, 15, 150),
             "config": W(w_config, 150, 2000), "files": W(w_files, 150, 2000)}
