"""C21: lattice and k-point utilities obey their defining identities."""
import itertools

import numpy as np

from vlib import defaults, gen
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random lattice parameters (also obtuse and nearly flat), random and left-handed "
        "lattices, coordinates as float, integer, list, tuple and single-row input, origins, "
        "all axes, angles beyond a turn, paths with segments of 0, 1 or many points, meshes. "
        "Non-trivial: skewed lattice or non-array input. Oracle: the defining identities "
        "evaluated on the outputs; inputs must stay unchanged.")
REQUIRED = ["vectors", "duality", "conversions", "rotations", "areas", "paths", "meshes",
            "distances", "models", "rejections", "defaults"]


def form(rng, a):
    """The same coordinates in another input form."""
    u = int(rng.integers(4))
    if u == 0:
        return np.array(a), u
    if u == 1:
        return np.array(a).tolist(), u
    if u == 2:
        return tuple(tuple(float(x) for x in r) for r in a), u
    return np.asfortranarray(a), u


def ang(u, v):
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(u, v)), np.dot(u, v)))


def w_vectors(rng, obs):
    while True:
        if rng.random() < 0.3:
            al, be, ga = (float(x) for x in rng.choice([30, 60, 90, 120, 45, 100], 3))
        elif rng.random() < 0.4:        # all but orthogonal
            al, be, ga = (90 + float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-5, 0) for _ in range(3))
        else:
            al, be, ga = (float(x) for x in rng.uniform(10, 170, 3))
        c = np.cos(np.radians([al, be, ga]))
        if 1 + 2 * c.prod() - (c ** 2).sum() > 1e-4:
            break
    a, b, c = (float(x) for x in 10 ** rng.uniform(-1, 2, 3))
    v = tb.gen_lattice_vectors(a=a, b=b, c=c, alpha=al, beta=be, gamma=ga)
    obs.close(np.linalg.norm(v, axis=1) / [a, b, c], np.ones(3), "lengths", event="vectors")
    obs.close([ang(v[1], v[2]), ang(v[2], v[0]), ang(v[0], v[1])], [al, be, ga],
              f"angles for {al} {be} {ga}", tol=1e-8, event="vectors")
    obs.check(v[0, 1] == 0 and v[0, 2] == 0 and v[1, 2] == 0, "a is along x and b in the xy plane")
    obs.check(np.linalg.det(v) > 0, "right-handed")
    obs.close(tb.gen_lattice_vectors(a, b, c, al, be, ga), v, "positional arguments")
    obs.close(tb.gen_lattice_vectors(), np.eye(3), "default arguments")
    obs.note(p=(a, b, c, al, be, ga))
    obs.hard(not al == be == ga == 90)


def w_convert(rng, obs):
    lat = gen.lattice(rng) * 10 ** rng.uniform(-1, 1)
    if rng.random() < 0.3:
        lat = lat[::-1].copy()
    if rng.random() < 0.3:      # the same arrays with other values
        other = tb.gen_reciprocal_vectors(lat)
        other *= 3.0
        lat *= 1.25
    g = tb.gen_reciprocal_vectors(lat)
    obs.close(lat @ g.T, 2 * np.pi * np.eye(3), "a_i . b_j", tol=1e-9, event="duality")
    n = int(rng.integers(1, 7) if rng.random() < 0.95 else rng.integers(100, 2000))
    ints = rng.random() < 0.3
    f = rng.integers(-4, 5, (n, 3)) if ints else rng.uniform(-3, 3, (n, 3))
    x = f @ lat
    o = rng.uniform(-5, 5, 3) if rng.random() < 0.6 else np.zeros(3)
    ff, u1 = (f.tolist(), 1) if ints and rng.random() < 0.5 else (f, 0) if ints else form(rng, f)
    ll, u2 = form(rng, lat)
    kw = {"origin": o} if np.any(o) or rng.random() < 0.5 else {}
    keep = (np.array(ff), np.array(ll), o.copy())
    got = tb.frac2cart(ll, ff, **kw)
    obs.close(got, x + o, f"frac2cart (forms {u1} {u2})", event="conversions")
    xx, u3 = form(rng, x + o)
    obs.close(tb.cart2frac(ll, xx, **kw), np.array(f, float), "cart2frac", tol=1e-8,
              event="conversions")
    obs.close(tb.cart2frac(ll, got, **kw), np.array(f, float), "cart2frac of frac2cart",
              tol=1e-8, event="conversions")
    obs.close(tb.frac2cart(ll, tb.cart2frac(ll, xx, **kw), **kw), x + o, "frac2cart of cart2frac",
              tol=1e-8, event="conversions")
    obs.check(all(np.array_equal(np.array(p), q) for p, q in zip((ff, ll, o), keep)),
              "inputs changed")
    # integer cartesian coordinates
    xi = rng.integers(-5, 6, (n, 3))
    obs.close(tb.cart2frac(lat, xi, **kw) @ lat, xi - (o if kw else 0 * o), "cart2frac of integers",
              tol=1e-8, event="conversions")
    obs.close(tb.frac2cart(lat, np.zeros((1, 3))), np.zeros((1, 3)), "origin of a later call",
              event="conversions")
    # areas and volumes
    for d, (i, j) in dict(a=(1, 2), b=(2, 0), c=(0, 1)).items():
        gram = np.array([[lat[i] @ lat[i], lat[i] @ lat[j]], [lat[j] @ lat[i], lat[j] @ lat[j]]])
        obs.close(tb.get_lattice_area(lat, d), np.sqrt(np.linalg.det(gram)), f"area {d}",
                  event="areas")
    obs.close(tb.get_lattice_area(lat), tb.get_lattice_area(lat, "c"), "default area")
    vol = abs(np.linalg.det(lat))
    obs.close(tb.get_lattice_volume(lat) / vol, 1.0, "volume", event="areas")
    obs.close(np.linalg.det(g) * np.linalg.det(lat), (2 * np.pi) ** 3, "reciprocal volume",
              tol=1e-8, event="areas")
    obs.raises(ValueError, lambda: tb.get_lattice_area(lat, "z"), "direction z")
    obs.note(forms=(u1, u2, u3), n=n)
    obs.feed(lat, f)
    obs.hard(u1 or u2 or u3)


def w_rotate(rng, obs):
    n = int(rng.integers(1, 7))
    ints = rng.random() < 0.3
    x = rng.integers(-4, 5, (n, 3)) if ints else rng.uniform(-5, 5, (n, 3))
    axis = str(rng.choice(["x", "y", "z"]))
    t = float(rng.choice([rng.uniform(-10, 10), np.pi / 2, np.pi, -np.pi / 3, 0.0]))
    c = rng.uniform(-3, 3, 3) if rng.random() < 0.6 else np.zeros(3)
    cc = c if rng.random() < 0.5 else c.tolist()
    a = dict(x=0, y=1, z=2)[axis]
    i, j = (a + 1) % 3, (a + 2) % 3
    want = np.array(x, float)
    d = want - c
    want[:, i] = np.cos(t) * d[:, i] - np.sin(t) * d[:, j] + c[i]
    want[:, j] = np.sin(t) * d[:, i] + np.cos(t) * d[:, j] + c[j]
    xx = (x, x.tolist())[int(rng.integers(2))]
    keep = np.array(xx)
    kw = {} if not np.any(c) and rng.random() < 0.5 else {"center": cc}
    got = tb.rotate_coord(xx, angle=t, axis=axis, **kw)
    obs.close(got, want, f"rotation about {axis} by {t}", event="rotations")
    obs.check(np.array_equal(np.array(xx), keep), "input changed by the rotation")
    obs.close(tb.rotate_coord(got, angle=-t, axis=axis, **kw), np.array(x, float),
              "rotation and back", tol=1e-8, event="rotations")
    # isometry, also with a general first step
    p = tb.rotate_coord(got, angle=1.1, axis=str(rng.choice(["x", "y", "z"])), center=cc)
    dist = lambda y: np.linalg.norm(y[:, None] - y[None], axis=2)
    obs.close(dist(p), dist(np.array(x, float)), "distances", tol=1e-8, event="rotations")
    if n > 3:
        vol = lambda y: np.linalg.det(np.array(y[1:4], float) - y[0])
        obs.close(vol(p), vol(x), "handedness", tol=1e-8, event="rotations")
    obs.raises(ValueError, lambda: tb.rotate_coord(x, angle=t, axis="w"), "unknown axis")
    obs.raises(ValueError, lambda: tb.rotate_coord(x, angle=t, center=np.zeros(2)), "short centre")
    obs.note(axis=axis, t=t, n=n)
    obs.feed(x)
    obs.hard(np.any(c) or ints)


def w_kpoints(rng, obs):
    lat = gen.lattice(rng)
    nk = int(rng.integers(2, 6) if rng.random() < 0.95 else rng.integers(8, 30))
    hs = rng.uniform(-1, 1, (nk, 3)) if rng.random() < 0.5 else \
        rng.choice([0.0, 0.5, 1 / 3, 2 / 3, 1.0], (nk, 3))
    num = [int(x) for x in rng.integers(1, 9 if rng.random() < 0.95 else 400, nk - 1)]
    if rng.random() < 0.2:
        num[int(rng.integers(nk - 1))] = 1
    nf = (num, tuple(num), np.array(num))[int(rng.integers(3))]
    hf = (hs, hs.tolist())[int(rng.integers(2))]
    if rng.random() < 0.4:
        path, idx = tb.gen_kpath(hf, nf)
        path += 0.2
        if isinstance(idx, (list, np.ndarray)):
            idx[0] += 5
    path, idx = tb.gen_kpath(hf, nf)
    obs.check(path.shape == (sum(num) + 1, 3), f"{path.shape[0]} points, want {sum(num) + 1}",
              event="paths")
    obs.check(list(idx) == [sum(num[:i]) for i in range(nk)], "indices of the special points")
    obs.close(path[idx], hs, "special points", event="paths")
    want = []
    for s in range(nk - 1):
        for q in range(num[s]):
            want.append(hs[s] + (hs[s + 1] - hs[s]) * q / num[s])
    want.append(hs[-1])
    obs.close(path, want, "points of the path", event="paths")
    obs.raises(ValueError, lambda: tb.gen_kpath(hs, num + [3]), "too many segments")
    g = 2 * np.pi * np.linalg.inv(lat).T
    d = tb.gen_kdist(lat, path)
    step = np.linalg.norm(np.diff(path @ g, axis=0), axis=1)
    obs.close(d, np.concatenate([[0], np.cumsum(step)]), "distances", tol=1e-8, event="distances")
    # meshes
    grid = tuple(int(x) for x in rng.integers(1, 6 if rng.random() < 0.95 else 24, 3))
    gf = (grid, list(grid), np.array(grid))[int(rng.integers(3))]
    if rng.random() < 0.4:      # a shifted mesh, then the mesh itself
        mesh = tb.gen_kmesh(gf)
        mesh += 0.013
    mesh = tb.gen_kmesh(gf)
    want = [[i / grid[0], j / grid[1], k / grid[2]] for i, j, k in
            itertools.product(*map(range, grid))]
    obs.close(mesh, want, f"mesh {grid}", event="meshes")
    obs.raises(ValueError, lambda: tb.gen_kmesh(grid[:2]), "mesh of two numbers")
    obs.note(num=num, grid=grid)
    obs.feed(hs, lat)
    obs.hard()


def w_models(rng, obs):
    """The same quantities asked from cells and supercells."""
    pc, rc = gen.small_cell(rng)
    dim = tuple(int(2 * m + 1 + rng.integers(0, 3)) for m in gen.max_rn(rc))
    sc = tb.SuperCell(pc, dim, (True, True, True))
    sample = tb.Sample(sc)
    if rng.random() < 0.5:
        for m in (pc, sc):
            g = m.get_reciprocal_vectors()
            g += 1
    for what, m, lat in (("cell", pc, rc.lat), ("supercell", sc, rc.lat * np.array(dim)[:, None])):
        gram = lat @ lat.T
        for d, (i, j) in dict(a=(1, 2), b=(2, 0), c=(0, 1)).items():
            obs.close(m.get_lattice_area(d), np.sqrt(gram[i, i] * gram[j, j] - gram[i, j] ** 2),
                      f"area {d} of the {what}", event="models")
        obs.close(m.get_lattice_volume(), abs(np.linalg.det(lat)), f"volume of the {what}",
                  event="models")
        obs.close(m.get_reciprocal_vectors() @ lat.T, 2 * np.pi * np.eye(3),
                  f"reciprocal vectors of the {what}", event="models")
    # k-lengths that come with the bands
    path, _ = tb.gen_kpath(rng.uniform(-1, 1, (3, 3)), [int(x) for x in rng.integers(1, 5, 2)])
    for what, m, lat in (("cell", pc, rc.lat), ("sample", sample, sc.sc_lat_vec)):
        if what == "sample" and sc.num_orb_sc > 80:
            continue
        g = 2 * np.pi * np.linalg.inv(lat).T
        step = np.linalg.norm(np.diff(path @ g, axis=0), axis=1)
        k_len = m.calc_bands(path)[0]
        obs.close(k_len, np.concatenate([[0], np.cumsum(step)]), f"k-lengths of the {what}",
                  tol=1e-8, event="models")
    obs.note(dim=dim, n=rc.n)
    obs.feed(rc.lat)
    obs.hard(max(dim) > 1)


WORKLOADS = {"defaults": W(defaults.c21, 15, 150),
             "vectors": W(w_vectors, 150, 3000), "convert": W(w_convert, 250, 5000),
             "rotate": W(w_rotate, 200, 4000), "kpoints": W(w_kpoints, 150, 3000),
             "models": W(w_models, 60, 600)}
