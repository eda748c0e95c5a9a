"""C23: built-in materials have their published symmetry and parameters."""
import json
import os

import numpy as np

from vlib import gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Every builder, material and option (random c, t, spin-orbit strength), built repeatedly "
        "and after edits of earlier copies. Non-trivial: non-default options or a multi-orbital "
        "material. Oracle: geometry (bond lengths, coordination), point-group and time-reversal "
        "symmetry of the bands at random momenta, analytic bands of graphene and phosphorene, "
        "multiplets of the spin-orbit blocks, reference energies of the published parameter "
        "sets, linear scaling with the options.")
REQUIRED = ["geometry", "symmetry", "reference", "analytic", "options", "multiplets", "kramers",
            "independent", "rejections", "folding"]
DATA = os.path.join(os.path.dirname(__file__), "data", "materials.json")

BUILD = {
    "graphene_diamond": lambda: tb.make_graphene_diamond(),
    "graphene_rect": lambda: tb.make_graphene_rect(),
    "graphene_rect_reshaped": lambda: tb.make_graphene_rect(from_scratch=False),
    "graphene_sp": lambda: tb.make_graphene_sp(),
    "graphene_qsh": lambda: tb.make_graphene_soc(True),
    "graphene_normal": lambda: tb.make_graphene_soc(False),
    "black_phosphorus": lambda: tb.make_black_phosphorus(),
    "antimonene": lambda: tb.make_antimonene(with_soc=False),
    "antimonene_soc": lambda: tb.make_antimonene(),
    "mos2_soc": lambda: tb.make_mos2_soc(),
    "MoS2": lambda: tb.make_tmdc("MoS2"), "MoSe2": lambda: tb.make_tmdc("MoSe2"),
    "WS2": lambda: tb.make_tmdc("WS2"), "WSe2": lambda: tb.make_tmdc("WSe2"),
}
HEX = [n for n in BUILD if "rect" not in n and n != "black_phosphorus"]
TOL = {"antimonene_soc": 5e-5, "mos2_soc": 3e-4}     # rounded published numbers


def hcart(pc, k):
    """Bands at a Cartesian momentum (1/nm)."""
    rc = ref.from_prim_cell(pc)
    return np.linalg.eigvalsh(rc.ham(np.asarray(k) @ rc.lat.T / (2 * np.pi)))


def turn(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def sites(pc):
    """Distinct sites: [(position nm, [orbitals])]."""
    out = []
    for i, o in enumerate(pc.orbitals):
        x = np.array(o.position) @ pc.lat_vec
        for s in out:
            if np.max(np.abs(s[0] - x)) < 1e-9:
                s[1].append(i)
                break
        else:
            out.append((x, [i]))
    return out


def shells(pc, rmax):
    """Distances of the neighbouring sites of every site."""
    s, out = sites(pc), []
    for x, _ in s:
        d = []
        for y, _ in s:
            for a in range(-3, 4):
                for b in range(-3, 4):
                    r = np.linalg.norm(y + a * pc.lat_vec[0] + b * pc.lat_vec[1] - x)
                    if 1e-9 < r < rmax:
                        d.append(r)
        out.append(np.sort(d))
    return out


def reach(pc):
    """[length of the hoppings (nm), sum of |t|^2 over them], shortest first."""
    rc, out = ref.from_prim_cell(pc), []
    pos = rc.pos()
    for (r, i, j), t in rc.hop.items():
        if abs(t) < 1e-9:
            continue
        d = float(np.linalg.norm((pos[j] + np.array(r) - pos[i]) @ rc.lat))
        for x in out:
            if abs(x[0] - d) < 1e-6:
                x[1] += abs(t) ** 2
                break
        else:
            out.append([d, abs(t) ** 2])
    return sorted([round(a, 7), round(float(b), 7)] for a, b in out)


def scale(name, pc):
    return np.linalg.norm(pc.lat_vec[0])


def w_reference(rng, obs):
    """Everything at default options."""
    data = json.load(open(DATA))
    for name, make in BUILD.items():
        pc = make()
        d = data[name]
        obs.check(pc.num_orb == d["orbitals"], f"{name}: {pc.num_orb} orbitals")
        obs.close(np.linalg.norm(pc.lat_vec, axis=1), d["lengths"], f"{name}: lattice constants",
                  event="geometry")
        obs.close(abs(np.linalg.det(pc.lat_vec)), d["volume"], f"{name}: volume", event="geometry")
        got = sorted([round(float(x), 6) for x in s] for s in shells(pc, d["rmax"]))
        obs.check(len(got) == len(d["shells"]) and
                  all(len(a) == len(b) and np.allclose(a, b, atol=2e-6) for a, b in
                      zip(got, d["shells"])), f"{name}: neighbours at {got}, want {d['shells']}",
                  event="geometry")
        got = reach(pc)
        obs.check(np.shape(got) == np.shape(d["reach"]) and np.allclose(got, d["reach"], atol=5e-6),
                  f"{name}: hoppings of lengths and weights {got}, want {d['reach']}", event="geometry")
        for k, e in zip(d["k"], d["bands"]):
            obs.close(hcart(pc, k), e, f"{name}: published energies at {k}", tol=1e-7,
                      event="reference")
        # the library's own bands
        f = np.array(d["k"]) @ pc.lat_vec.T / (2 * np.pi)
        obs.close(np.sort(pc.calc_bands(f)[1], axis=1), d["bands"], f"{name}: calc_bands", tol=1e-7,
                  event="reference")
        # on-site energies and hoppings do not depend on earlier copies
        pc.set_orbital(0, energy=17.0)
        r, t = next(iter(pc.hoppings.items()))
        (i, j), _ = next(iter(t.items()))
        pc.add_hopping(r, i, j, 3.25)
        obs.close(hcart(make(), d["k"][0]), d["bands"][0], f"{name}: second copy", tol=1e-7,
                  event="independent")
    for bad in ("MoTe2", "mos2", ""):
        obs.raises(NotImplementedError, lambda: tb.make_tmdc(bad), f"material {bad!r}")
    obs.note(x=float(rng.random()))
    obs.hard()


def w_symmetry(rng, obs):
    name = str(rng.choice(list(BUILD)))
    pc = BUILD[name]()
    tol = TOL.get(name, 1e-8)
    g = 2 * np.pi / scale(name, pc)
    k = np.append(rng.uniform(-1, 1, 2) * g, 0)
    e = hcart(pc, k)
    obs.close(hcart(pc, -k), e, f"{name}: time reversal", tol=tol, event="symmetry")
    obs.close(hcart(pc, k * [-1, 1, 1]), e, f"{name}: mirror x", tol=tol, event="symmetry")
    obs.close(hcart(pc, k * [1, -1, 1]), e, f"{name}: mirror y", tol=tol, event="symmetry")
    obs.close(hcart(pc, k + [0, 0, float(rng.uniform(-9, 9))]), e, f"{name}: layers are coupled",
              tol=tol, event="symmetry")
    if name in HEX:
        for n in (1, 2):
            obs.close(hcart(pc, turn(n * np.pi / 3) @ k), e, f"{name}: rotation by {n}/6", tol=tol,
                      event="symmetry")
    if name == "antimonene_soc":
        obs.close(e[0::2], e[1::2], f"{name}: Kramers pairs", tol=1e-8, event="kramers")
    if name in ("antimonene_soc", "mos2_soc", "graphene_qsh", "graphene_normal"):
        r = rng.integers(0, 2, 2)
        q = np.append(r, 0) / 2
        ev = np.linalg.eigvalsh(ref.from_prim_cell(pc).ham(q))
        obs.close(ev[0::2], ev[1::2], f"{name}: Kramers pairs at {q}", tol=1e-8, event="kramers")
    obs.note(name=name, k=k.tolist())
    obs.hard(pc.num_orb > 2)


def fgraphene(k):
    """sum of exp(i k.d) over the three bonds."""
    d = 0.246 / np.sqrt(3)
    v = [d * np.array([np.cos(t), np.sin(t)]) for t in np.radians([30, 150, 270])]
    return sum(np.exp(1j * np.dot(k[:2], x)) for x in v)


def w_graphene(rng, obs):
    c = float(rng.uniform(0.3, 5))
    t = gen.nonzero(gen.real, rng)      # complex t: only a shift of k, not asked here
    k = np.append(rng.uniform(-1, 1, 2) * 30, 0)
    dia = tb.make_graphene_diamond(c=c, t=t)
    e = abs(t) * abs(fgraphene(k))
    obs.close(dia.lat_vec[2], [0, 0, c], "c-axis of the diamond cell", event="options")
    obs.close(hcart(dia, k), [-e, e], "bands of graphene", event="analytic")
    for scratch in (True, False):
        rect = tb.make_graphene_rect(from_scratch=scratch, c=c, t=t)
        obs.close(np.linalg.norm(rect.lat_vec, axis=1), [0.246, 0.246 * np.sqrt(3), c],
                  f"axes of the rectangular cell (from_scratch={scratch})", event="options")
        obs.check(rect.num_orb == 4, "four atoms")
        obs.close(abs(rect.lat_vec @ rect.lat_vec.T - np.diag(np.diag(rect.lat_vec @ rect.lat_vec.T))),
                  np.zeros((3, 3)), "right angles")
        q = np.append(rng.uniform(-1, 1, 2) * 30, 0)
        g = 2 * np.pi * np.linalg.inv(rect.lat_vec).T
        want = []
        for s in (np.zeros(3), g[1]):
            x = abs(t) * abs(fgraphene(q + s))
            want += [-x, x]
        obs.close(hcart(rect, q), np.sort(want), f"folded bands (from_scratch={scratch})",
                  event="folding")
    sp = tb.make_graphene_sp(c=c)
    obs.close(sp.lat_vec[2], [0, 0, c], "c-axis of the sp model", event="options")
    # pz decouples: first and second neighbours
    f = fgraphene(k)
    pz = [0.070 * (abs(f) ** 2 - 3) + s * 3.070 * abs(f) for s in (-1, 1)]
    ev = hcart(sp, k)
    for x in pz:
        obs.check(np.min(np.abs(ev - x)) < 1e-7, f"pz band {x} is not among {ev}",
                  event="analytic")
    ev0 = hcart(tb.make_graphene_sp(), k)
    obs.close(ev, ev0, "the bands of a layer depend on c", tol=1e-8, event="options")
    # s and p states at the zone centre
    g0 = np.linalg.eigvalsh(ref.from_prim_cell(sp).ham(np.zeros(3)))
    ss = [-8.370 + 6 * 0.102 + s * 3 * 5.729 for s in (-1, 1)]
    pp = [6 * (-0.377 + 0.070) / 2 + s * 1.5 * (6.050 - 3.070) for s in (-1, 1)]
    want = np.sort(ss + pp + pp + [6 * 0.070 + s * 3 * 3.070 for s in (-1, 1)])
    obs.close(g0, want, "zone centre of the sp model", event="analytic")
    obs.note(c=c, t=str(t))
    obs.feed(k)
    obs.hard(t != -2.7)


def w_phosphorus(rng, obs):
    """Independent construction: hopping as a function of the displacement."""
    c = float(rng.uniform(0.3, 5))
    pc = tb.make_black_phosphorus(c=c)
    th = np.radians(48.395)
    a, b = 2 * 0.22156 * np.sin(th), 2 * 0.07159 + 2 * 0.22156 * np.cos(th)
    q = 0.22378 * np.cos(np.radians(108.657 - 90))
    obs.close(pc.lat_vec, np.diag([a, b, c]), "axes", event="options")
    pos = np.array([[0, 0, 0], [0, 0.07159, q], [a / 2, b / 2, q], [a / 2, b / 2 + 0.07159, 0]])
    got = np.array([o.position for o in pc.orbitals]) @ pc.lat_vec
    obs.close(got, pos, "atoms", event="geometry")
    # (same height, |dx|/a, distance along b): from the figure of the reference
    p = 0.07159
    rule = {(True, 0.5, b / 2 - p): -1.486, (False, 0.0, p): 3.729, (True, 1.0, 0.0): -0.252,
            (True, 0.5, b / 2 + p): -0.071, (False, 0.5, b / 2): 0.019, (False, 0.0, b - p): 0.186,
            (True, 0.0, b): -0.063, (True, 1.5, b / 2 - p): 0.101, (False, 1.0, b - p): -0.042,
            (True, 1.0, b): 0.073}
    rc = ref.RefCell(np.diag([a, b, c]))
    for x in pos:
        rc.add_orb(x @ np.linalg.inv(np.diag([a, b, c])), 0.0)
    used = set()
    for i in range(4):
        for j in range(4):
            for r in [(x, y, 0) for x in range(-3, 4) for y in range(-3, 4)]:
                d = pos[j] + np.array(r) * [a, b, c] - pos[i]
                for key, t in rule.items():
                    if key[0] == (abs(d[2]) < 1e-6) and abs(abs(d[0]) / a - key[1]) < 1e-6 and \
                            abs(abs(d[1]) - key[2]) < 1e-6:
                        rc.hop[(r, i, j)] = t
                        used.add(key)
    obs.check(len(used) == 10, "harness: rule")
    mine = ref.from_prim_cell(pc)
    obs.check(set(k for k, v in mine.hop.items() if v) == set(rc.hop),
              f"different neighbours: {sorted(set(mine.hop) ^ set(rc.hop))[:4]}", event="geometry")
    for x in rc.hop:
        obs.close(mine.hop[x], rc.hop[x], f"hopping {x}", event="analytic")
    k = gen.kpoint(rng)
    obs.close(np.linalg.eigvalsh(mine.ham(k)), np.linalg.eigvalsh(rc.ham(k)), "bands",
              event="analytic")
    obs.note(c=c)
    obs.hard()


def w_spin_orbit(rng, obs):
    lam = float(rng.choice([0.0, 0.34, rng.uniform(-1, 1)]))
    c = float(rng.uniform(0.5, 4))
    pc = tb.make_antimonene(with_soc=True, soc_lambda=lam, c=c)
    no = tb.make_antimonene(with_soc=False, soc_lambda=lam, c=c)
    one = tb.make_antimonene(soc_lambda=1.0)
    obs.close(pc.lat_vec[2], [0, 0, c], "c-axis", event="options")
    obs.close(no.lat_vec[2], [0, 0, c], "c-axis without spin", event="options")
    k = np.append(rng.uniform(-1, 1, 2), 0)
    h, h0, h1 = (ref.from_prim_cell(x).ham(k) for x in
                 (pc, tb.make_antimonene(soc_lambda=0.0), one))
    obs.close(h, h0 + lam * (h1 - h0), "not linear in the spin-orbit strength", event="options")
    e0 = np.linalg.eigvalsh(h0)
    en = np.linalg.eigvalsh(ref.from_prim_cell(no).ham(k))
    obs.close(e0, np.repeat(en, 2), "bands without spin-orbit coupling", event="options")
    # p multiplets on both atoms (the published matrix is rounded and not quite of the ideal form)
    for x, idx in sites(one):
        ev = np.linalg.eigvalsh((h1 - h0)[np.ix_(idx, idx)])
        obs.close(np.sort(np.abs(ev)), [0.5] * 4 + [1] * 2, "multiplets of the p shell", tol=0.02,
                  event="multiplets")
        obs.close(ev.sum(), 0.0, "trace of the spin-orbit block", event="multiplets")
    # quantum spin Hall variants of graphene: masses of the valleys
    for qsh, nu in ((True, 0.1), (False, 0.4)):
        g = tb.make_graphene_soc(qsh)
        e = [o.energy for o in g.orbitals]
        obs.close(e, [-nu, -nu, nu, nu], f"staggered potential, is_qsh={qsh}", event="options")
    # MoS2: spin-orbit blocks of the atoms
    m = tb.make_mos2_soc()
    rc = ref.from_prim_cell(m)
    lab = [o.label.split(":") for o in m.orbitals]
    for atom, l, s in (("Mo", 2, 0.075), ("S1", 1, 0.052), ("S2", 1, 0.052)):
        ix = [i for i, x in enumerate(lab) if x[0] == atom]
        obs.check(len(ix) == 2 * (2 * l + 1), f"orbitals of {atom}")
        blk = np.zeros((len(ix), len(ix)), complex)
        for a, i in enumerate(ix):
            for b, j in enumerate(ix):
                blk[a, b] = rc.hop.get(((0, 0, 0), i, j), 0)
        obs.close(np.linalg.eigvalsh(blk), [-s * (l + 1) / 2] * (2 * l) + [s * l / 2] * (2 * l + 2),
                  f"multiplets of {atom}", tol=1e-8, event="multiplets")
    obs.note(lam=lam, c=c)
    obs.feed(k)
    obs.hard(lam != 0)


WORKLOADS = {"reference": W(w_reference, 2, 4), "symmetry": W(w_symmetry, 120, 1500),
             "graphene": W(w_graphene, 20, 200), "phosphorus": W(w_phosphorus, 8, 60),
             "spin_orbit": W(w_spin_orbit, 16, 150)}
