"""Exact counterparts of the TBPM quantities.

The random states are not reconstructed from any knowledge of the generator: they are
measured through the public API.  A probe sample with the same number of orbitals has an
equidistant spectrum and eigenvectors localised on one site or one pair of sites, so that
its DOS correlation function is a discrete Fourier sum of the populations of the random
state in that basis.  Five probes give every modulus and relative phase.
"""
import os
import shutil
import tempfile

import numpy as np

from .core import HarnessError
from .gen import tb


class Out:
    """A scratch output folder for Solver."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=os.getcwd())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def solver(sm, cfg, d, prefix="x"):
    return tb.Solver(sm, cfg, echo_details=False, directory=d, prefix=prefix)


def _probe_sample(n, pairs, hop):
    """Sample with n orbitals and eigenvalues -1+(2j+1)/n."""
    lam = -1 + (2 * np.arange(n) + 1) / n
    pc = tb.PrimitiveCell(np.eye(3), unit=tb.NM)
    e, t, k = np.zeros(n), {}, 0
    order = []                                  # (site a, site b or None)
    used = {x for p in pairs for x in p}
    for a, b in pairs:
        e[a] = e[b] = (lam[k] + lam[k + 1]) / 2
        t[(a, b)] = (lam[k + 1] - lam[k]) / 2
        order.append((a, b))
        k += 2
    for a in range(n):
        if a not in used:
            e[a] = lam[k]
            order.append((a, None))
            k += 1
    for a in range(n):
        pc.add_orbital((a / n, 0.0, 0.0), energy=float(e[a]))
    for (a, b), v in t.items():
        pc.add_hopping((0, 0, 0), a, b, hop * float(v))
    if not t:                                  # a cell needs a hopping term
        pc.add_hopping((0, 0, 0), 0, 1, 0.0)
    sm = tb.Sample(tb.SuperCell(pc, (1, 1, 1), (False,) * 3))
    sm.rescale_ham(1.0)
    return sm, lam, order


def _populations(corr, lam):
    n = len(lam)
    t = np.arange(n)
    p = (np.exp(1j * np.pi * np.outer(lam, t)) @ corr[:n]) / n
    if np.max(np.abs(p.imag)) > 1e-9:
        raise HarnessError("populations of the probe are not real")
    return p.real


def measure_states(n, seed, nsample, d):
    """The random states of samples 1..nsample for n orbitals, up to their global phase."""
    def corr(sm):
        """contribution of each random sample to the DOS correlation function"""
        out, last = [], 0
        for m in range(1, nsample + 1):
            cfg = tb.Config()
            cfg.generic.update(seed=seed, nr_time_steps=n, nr_random_samples=m)
            c = solver(sm, cfg, d).calc_corr_dos() * m
            out.append(c - last)
            last = c
        return out
    even = [(a, a + 1) for a in range(0, n - 1, 2)]
    odd = [(a, a + 1) for a in range(1, n - 1, 2)]
    sm, lam, order = _probe_sample(n, [], 1)
    states = []
    single = [_populations(c, lam) for c in corr(sm)]
    link = [np.zeros(n - 1, complex) for _ in range(nsample)]    # conj(w_a) w_{a+1}
    for pairs in (even, odd):
        if not pairs:
            continue
        for hop in (1.0, -1j):
            sm, lam, order = _probe_sample(n, pairs, hop)
            for s, c in enumerate(corr(sm)):
                p = _populations(c, lam)
                for q, (a, b) in enumerate(pairs):
                    v = (p[2 * q + 1] - p[2 * q]) / 2
                    link[s][a] += v if hop == 1.0 else 1j * v
    for s in range(nsample):
        w = np.sqrt(np.maximum(single[s], 0)).astype(complex)
        for a in range(n - 1):
            if abs(link[s][a]) < 1e-12:
                raise HarnessError("vanishing component")
            w[a + 1] = abs(w[a + 1]) * np.exp(1j * (np.angle(w[a]) + np.angle(link[s][a])))
        states.append(w)
    return states


class Exact:
    """Matrix functions of one Hamiltonian (eV)."""
    def __init__(self, h):
        self.e, self.v = np.linalg.eigh(h)

    def f(self, func, x):
        c = func(self.e)
        return self.v @ ((c[:, None] if x.ndim == 2 else c) * (self.v.conj().T @ x))

    def u(self, t, x):
        return self.f(lambda e: np.exp(-1j * e * t), x)


def fermi(e, beta, mu):
    return 0.5 * (1 - np.tanh(0.5 * beta * (e - mu)))


def currents(rs, kcart=None):
    i, j, v, d = rs.bonds()
    if kcart is not None:
        v = v * np.exp(1j * d @ kcart)
    js = []
    for ax in (0, 1):
        m = np.zeros((rs.n, rs.n), complex)
        np.add.at(m, (i, j), 1j * v * d[:, ax])
        js.append(m)
    return js


def jackson(n):
    k = np.arange(n)
    q = np.pi / n
    g = ((n - k) * np.cos(q * k) + np.sin(q * k) / np.tan(q)) / n
    g[0] = 0.5
    return g
