"""C19: imported Wannier models reproduce the Wannier Hamiltonian."""
import contextlib
import io
import itertools
import os
import tempfile

import numpy as np

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Generated sets of Wannier90 files (.win, _centres.xyz, _hr.dat, _wsvec.dat): (a) models "
        "on a Monkhorst-Pack torus written the way Wannier90 does, with Wigner-Seitz points, "
        "degeneracies and minimal-image vectors; (b) arbitrary files with random degeneracies "
        "and image vectors that collide with other points; (c) the three data sets shipped in "
        "examples. Units Ang/Bohr/none, weak terms on either side of the cut-off. Non-trivial: "
        "some degeneracy or image list is longer than one. Oracle: direct Fourier sum of the "
        "files, Hamiltonian of the torus at its own k-points, exact set of terms.")
REQUIRED = ["torus_points", "fourier", "terms", "images", "cutoffs", "degenerate", "rejections", "defaults"]


def write(seed, lat_lines, centres, points, ndeg, ham, images, rng, atoms=2):
    n = len(centres)
    with open(f"{seed}.win", "w") as f:
        f.write("num_wann = %d\nnum_bands = %d\n\n" % (n, n + 2))
        f.write("begin unit_cell_cart\n" + "\n".join(lat_lines) + "\nend unit_cell_cart\n\n")
        f.write("begin atoms_frac\n C 0.0 0.0 0.0\nend atoms_frac\n\nmp_grid = 3 3 1\n")
        f.write("begin kpoints\n 0.0 0.0 0.0\n 0.0 0.3333 0.0\nend kpoints\n")
    with open(f"{seed}_centres.xyz", "w") as f:
        f.write(f"{n + atoms:6d}\n Wannier centres, written by Wannier90 on 1Jan2020\n")
        for c in centres:
            f.write("X   " + "".join(f"{x:22.14f}" for x in c) + "\n")
        for a in range(atoms):
            f.write(f"{str(rng.choice(['C', 'C', 'Xe', 'Se', 'H'])):4s}" + "".join(f"{x:22.14f}" for x in rng.uniform(-3, 3, 3)) + "\n")
    with open(f"{seed}_hr.dat", "w") as f:
        f.write(f" written on 1Jan2020 at 12:00:00\n{n:12d}\n{len(points):12d}\n")
        for s in range(0, len(ndeg), 15):
            f.write("".join(f"{d:5d}" for d in ndeg[s:s + 15]) + "\n")
        for p, h in zip(points, ham):
            for j in range(n):
                for i in range(n):
                    f.write("%5d%5d%5d%5d%5d%25.16e%25.16e\n"
                            % (*p, i + 1, j + 1, h[i, j].real, h[i, j].imag))
    if images is not None:
        with open(f"{seed}_wsvec.dat", "w") as f:
            f.write("## written on 1Jan2020 at 12:00:00  with use_ws_distance=.true.\n")
            for p in points:
                for i in range(n):
                    for j in range(n):
                        v = images[(p, i, j)]
                        f.write("%5d%5d%5d%5d%5d\n%5d\n" % (*p, i + 1, j + 1, len(v)))
                        for t in v:
                            f.write("%5d%5d%5d\n" % t)


def read(seed, wsvec):
    """Independent reader: effective terms {(R, i, j): value}."""
    tok = open(f"{seed}_hr.dat").read().split("\n", 1)[1].split()
    n, npt = int(tok[0]), int(tok[1])
    deg = [int(x) for x in tok[2:2 + npt]]
    body = tok[2 + npt:]
    img = {}
    if wsvec:
        t = [int(x) for x in open(f"{seed}_wsvec.dat").read().split("\n", 1)[1].split()]
        k = 0
        while k < len(t):
            key, m = tuple(t[k:k + 5]), t[k + 5]
            img[key] = [tuple(t[k + 6 + 3 * s:k + 9 + 3 * s]) for s in range(m)]
            k += 6 + 3 * m
    out = {}
    for r in range(len(body) // 7):
        b = body[7 * r:7 * r + 7]
        key = tuple(int(x) for x in b[:5])
        e = complex(float(b[5]), float(b[6])) / deg[r // (n * n)]
        for t in img.get(key, [(0, 0, 0)]) if wsvec else [(0, 0, 0)]:
            q = (key[0] + t[0], key[1] + t[1], key[2] + t[2])
            w = len(img[key]) if wsvec else 1
            out[(q, key[3] - 1, key[4] - 1)] = out.get((q, key[3] - 1, key[4] - 1), 0) + e / w
    return n, out


def fourier(n, terms, k):
    h = np.zeros((n, n), complex)
    for (r, i, j), e in terms.items():
        h[i, j] += e * np.exp(2j * np.pi * np.dot(k, r))
    return h


def judge(obs, rng, seed, wsvec, cutoff, lat_nm, centres, nk=3):
    n, terms = read(seed, wsvec)
    with contextlib.redirect_stdout(io.StringIO()):
        if rng.random() < 0.4:                 # the same files read before
            pc = tb.wan2pc(seed, correct_hop=wsvec if rng.random() < 0.6 else False)
            pc.set_orbital(0, energy=55.0)
            obs.ev("read_again")
        pc = tb.wan2pc(seed, correct_hop=wsvec, hop_eng_cutoff=cutoff)
    obs.check(pc.num_orb == n, f"{pc.num_orb} orbitals, want {n}")
    obs.close(pc.lat_vec, lat_nm, "lattice vectors", tol=1e-7)
    pos = np.array([o.position for o in pc.orbitals]) @ pc.lat_vec + pc.origin
    obs.close(pos, np.array(centres) * 0.1, "positions of the orbitals", tol=1e-7)
    kept = {x: e for x, e in terms.items() if abs(e) >= cutoff}
    if len(kept) < len(terms):
        obs.ev("cutoffs")
    # exact set of terms
    rc = ref.from_prim_cell(pc)
    for i in range(n):
        e = kept.get(((0, 0, 0), i, i), 0.0)
        obs.close(rc.orbs[i][1], e.real, f"on-site energy of {i}", event="terms")
    want = {x: e for x, e in kept.items() if not (x[0] == (0, 0, 0) and x[1] == x[2])}
    for x, e in want.items():
        if abs(e) > 1e-12 or x in rc.hop:
            obs.close(rc.hop.get(x, 0.0), e, f"hopping {x}", event="terms")
    for x, e in rc.hop.items():
        obs.check(x in want or abs(e) < 1e-12, f"hopping {x} = {e} is not in the files",
                  event="terms")
    # Hamiltonian
    for _ in range(nk):
        k = gen.kpoint(rng)
        h = fourier(n, kept, k)
        try:
            got = pc.calc_bands(np.array([k]))[1][0]
        except Exception as e:
            if want:
                raise
            break       # no hopping left: refused as documented
        obs.close(np.sort(got), np.linalg.eigvalsh(h), "band energies", event="fourier")
    return pc


def lat_lines(rng, lat):
    u = rng.random()
    if u < 0.3:
        return [" ".join(f"{x:22.15f}" for x in v) for v in lat], lat
    if u < 0.6:
        return [str(rng.choice(["Ang", "ang"]))] + [" ".join(f"{x:22.15f}" for x in v)
                                                    for v in lat], lat
    b = 0.529177210903
    return [str(rng.choice(["Bohr", "bohr", "  bohr  "]))] + \
        [" ".join(f"{x:22.15f}" for x in v) for v in lat / b], lat


def w_torus(rng, obs):
    """Wannier Hamiltonian of a Monkhorst-Pack grid."""
    n = int(rng.integers(1, 4) if rng.random() < 0.96 else rng.integers(8, 14))
    lat = gen.lattice(rng)
    dims = int(rng.choice([1, 2, 2, 3]))
    mp = [int(rng.integers(1, (7, 5, 4)[dims - 1])) if d < dims else 1 for d in range(3)]
    cells = list(itertools.product(*(range(m) for m in mp)))
    wrap = lambda r: tuple(x % m for x, m in zip(r, mp))
    hk = {}
    h = {r: rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) for r in cells}
    h = {r: (h[r] + h[wrap(tuple(-x for x in r))].conj().T) / 2 for r in cells}
    weak = rng.random() < 0.5
    if weak:
        for r in cells:
            m = rng.random((n, n)) < 0.3
            m = m | m.T
            h[r] = np.where(m, h[r] * 1e-9, h[r])
            h[wrap(tuple(-x for x in r))] = h[r].conj().T
        for r in cells:         # self-conjugate points
            if wrap(tuple(-x for x in r)) == r:
                h[r] = (h[r] + h[r].conj().T) / 2
    centres = rng.uniform(-0.3, 1.3, (n, 3)) @ lat
    if rng.random() < 0.3:      # positions of high symmetry: degenerate images
        centres = rng.choice([0, 0.5, 1.0], (n, 3)) @ lat
    big = np.array(mp)[:, None] * lat

    def nearest(d):
        """Supercell translations T minimising |d + T|."""
        c = list(itertools.product(*(range(-3, 4) if m > 0 else (0,) for m in mp)))
        v = np.linalg.norm(d + np.array(c) @ big, axis=1)
        return [tuple(int(x * m) for x, m in zip(c[q], mp)) for q in
                np.nonzero(v < v.min() + 1e-5)[0]]
    points, ndeg = [], []
    for r in cells:
        img = nearest(np.array(r) @ lat)
        for t in img:
            points.append(tuple(a + b for a, b in zip(r, t)))
            ndeg.append(len(img))
    order = sorted(range(len(points)), key=lambda x: points[x])
    points, ndeg = [points[x] for x in order], [ndeg[x] for x in order]
    images = {(p, i, j): nearest(np.array(p) @ lat + centres[j] - centres[i])
              for p in points for i in range(n) for j in range(n)}
    lines, lat = lat_lines(rng, lat)
    cutoff = float(rng.choice([0.0, 1e-5, 1e-6])) if weak else float(rng.choice([0.0, 1e-8]))
    with tempfile.TemporaryDirectory() as d:
        seed = os.path.join(d, "model")
        write(seed, lines, centres, points, ndeg, [h[wrap(p)] for p in points], images, rng)
        for ws in (False, True):
            pc = judge(obs, rng, seed, ws, cutoff, lat * 0.1, centres)
            # at the points of its own grid the model is the torus
            for _ in range(3):
                k = np.array([int(rng.integers(m)) / m for m in mp])
                hk = sum(h[r] * np.exp(2j * np.pi * np.dot(k, r)) for r in cells)
                if not pc.num_hop:
                    break
                got = np.sort(pc.calc_bands(np.array([k]))[1][0])
                obs.close(got, np.linalg.eigvalsh(hk), f"bands at {k} of the grid {mp}, "
                          f"correction {ws}", tol=1e-9 if cutoff == 0 else 1e-7,
                          event="torus_points")
    if max(ndeg) > 1:
        obs.ev("degenerate")
    m = max(len(v) for v in images.values())
    if m > 1 or any(v != [(0, 0, 0)] for v in images.values()):
        obs.ev("images")
    obs.note(n=n, mp=mp, deg=max(ndeg), cut=cutoff, lat=lat.round(3).tolist())
    obs.hard(max(ndeg) > 1 or m > 1)


def w_free(rng, obs):
    """Arbitrary files, also such that no grid produces."""
    n = int(rng.integers(1, 5))
    lat = gen.lattice(rng)
    half = set()
    for _ in range(int(rng.integers(1, 12))):
        r = gen.rn(rng, 2)
        if any(r):
            half.add(max(r, tuple(-x for x in r)))
    points = [(0, 0, 0)]
    deg, ham = {(0, 0, 0): 1}, {}
    m0 = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    ham[(0, 0, 0)] = (m0 + m0.conj().T) / 2
    weak = rng.random() < 0.6
    for r in sorted(half):
        q = tuple(-x for x in r)
        m = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        m = np.where(np.abs(m) < 0.05, 0.5, m)
        if rng.random() < 0.3:
            m = np.where(rng.random((n, n)) < 0.5, 1j * m.imag, m.real)
        if weak:
            m = np.where(rng.random((n, n)) < 0.4, m * 1e-8, m)
        ham[r], ham[q] = m, m.conj().T
        deg[r] = deg[q] = int(rng.choice([1, 1, 2, 3, 4, 6]))
        points += [r, q]
    if rng.random() < 0.5:
        points.sort()
    else:
        points = [points[x] for x in rng.permutation(len(points))]
    images = {}
    for r in points:
        q = tuple(-x for x in r)
        for i in range(n):
            for j in range(n):
                if (r, i, j) in images:
                    continue
                u = rng.random()
                v = [(0, 0, 0)] if u < 0.4 else sorted({gen.rn(rng, 2) for _ in
                                                       range(int(rng.integers(1, 4)))})
                w = [tuple(-x for x in t) for t in v]
                if r == q and i == j:   # must be its own mirror image
                    v = w = sorted(set(v) | set(w))
                images[(r, i, j)], images[(q, j, i)] = v, w
    centres = rng.uniform(-1, 2, (n, 3)) @ lat
    lines, lat = lat_lines(rng, lat)
    cutoff = float(10.0 ** rng.uniform(-6.5, -4)) if weak else float(rng.choice([0.0, 1e-5]))
    with tempfile.TemporaryDirectory() as d:
        seed = os.path.join(d, "wannier90")
        ws = bool(rng.integers(2))
        write(seed, lines, centres, points, [deg[p] for p in points],
              [ham[p] for p in points], images if ws else None, rng, atoms=int(rng.integers(3)))
        # skip the rare accumulated terms in the gap of the magnitudes
        _, t = read(seed, ws)
        size = np.sort([abs(e) for e in t.values()])
        gaps = np.nonzero(np.diff(size) > 1e-5)[0]
        between = len(gaps) > 0 and rng.random() < 0.5
        if between:             # a threshold among the terms
            g = int(gaps[int(rng.integers(len(gaps)))])
            cutoff = float((size[g] + size[g + 1]) / 2)
        if between or not any(1e-7 < abs(e) < 1e-3 for e in t.values()):
            judge(obs, rng, seed, ws, cutoff, lat * 0.1, centres)
        if not ws:
            obs.raises(FileNotFoundError, lambda: tb.wan2pc(seed, correct_hop=True),
                       "missing wsvec file")
            bad = lines if len(lines) == 4 else ["x"] + lines
            txt = open(seed + ".win").read().replace(bad[0] + "\n" + bad[1], "furlong\n" + bad[1])
            if "furlong" in txt:
                open(seed + ".win", "w").write(txt)
                obs.raises(ValueError, lambda: tb.wan2pc(seed), "unknown unit")
        else:
            obs.ev("images")
    obs.ev("degenerate", max(deg.values()) > 1)
    obs.note(n=n, ws=ws, points=len(points), cut=cutoff, first=points[0])
    obs.feed(ham[points[-1]])
    obs.hard(max(deg.values()) > 1 or ws)


def w_shipped(rng, obs):
    """The data sets in examples/interface/wannier90."""
    base = os.path.join(os.path.dirname(os.path.dirname(tb.__file__)), "examples", "interface",
                        "wannier90")
    for name in ("graphene", "mos2", "inse"):
        seed = os.path.join(base, name, name)
        if not os.path.exists(seed + "_hr.dat"):
            continue
        cent = [[float(x) for x in l.split()[1:]] for l in
                open(seed + "_centres.xyz").readlines()[2:] if l.split()[0] == "X"]
        win = open(seed + ".win").read().lower()
        blk = [l for l in win.split("begin unit_cell_cart")[1].split("end unit_cell_cart")[0]
               .splitlines() if l.strip()]
        bohr = blk[0].strip() == "bohr"
        lat = np.array([[float(x) for x in l.split()] for l in blk[-3:]])
        lat = lat * (0.0529177210903 if bohr else 0.1)
        for ws in (False, True):
            if ws and not os.path.exists(seed + "_wsvec.dat"):
                continue
            judge(obs, rng, seed, ws, 0.0, lat, cent, nk=2)
            obs.ev("shipped")
    obs.note(x=float(rng.random()))
    obs.hard()


WORKLOADS = {"defaults": W(defaults.c19, 15, 150),
             "torus": W(w_torus, 60, 900), "free": W(w_free, 120, 3000),
             "shipped": W(w_shipped, 1, 2)}
