"""C24: figures, listings and cube files show the model and the data."""
import contextlib
import io
import math
import os
import re

import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching
from scipy.special import genlaguerre, lpmv

from vlib import defaults, gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random cells, supercells, couplings and samples drawn in every view, as arrows and lines, with and without "
        "conjugates, cells and orbitals, with cut-offs and colours; bands, densities, phases, scalar and vector "
        "fields on rectangular grids; wave functions of random orbitals, momenta and conventions written to cube "
        "files; printed cells. Non-trivial: more than one bond or a non-default option. Oracle: the artists of the "
        "figure at the time it is saved or shown, matched one to one with the bonds, positions and data of the "
        "shadow model; hydrogen-like functions from Laguerre polynomials and spherical harmonics.")
REQUIRED = ["orbitals_drawn", "bonds_drawn", "views", "cells_drawn", "lattice_arrows", "saved", "shown", "samples",
            "couplings", "curves", "images", "vectors", "cubes", "cube_values", "listings", "cutoffs", "colours",
            "rejections", "defaults", "fields_on_layers"]
BOHR = 0.052917721067


class Capture:
    """Keep the figure that is saved or shown."""
    def __enter__(self):
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt
        self.mf, self.plt, self.figs = mf, plt, []
        self.old = mf.Figure.savefig, plt.show, mf.Figure.show
        me = self

        def savefig(fig, *a, **k):
            me.figs.append(fig)
            return me.old[0](fig, *a, **k)

        def show(*a, **k):
            me.figs.append(plt.gcf())

        def figshow(fig, *a, **k):
            me.figs.append(fig)
        mf.Figure.savefig, plt.show, mf.Figure.show = savefig, show, figshow
        return self

    def __exit__(self, *a):
        self.mf.Figure.savefig, self.plt.show, self.mf.Figure.show = self.old
        return False

    def axes(self, obs, nax=1):
        obs.check(len(self.figs) == 1, f"{len(self.figs)} figures came out")
        ax = self.figs[0].axes
        obs.check(len(ax) >= nax, "axes missing")
        return ax[0]


def arrows(ax):
    from matplotlib.patches import FancyArrow
    from matplotlib.colors import to_hex
    out = []
    for p in ax.patches:
        if isinstance(p, FancyArrow):
            out.append((to_hex(p.get_edgecolor()), np.array([p._x, p._y, p._x + p._dx, p._y + p._dy])))
    return out


def segments(ax):
    """(colour, (x0, y0, x1, y1)) of every line collection."""
    from matplotlib.collections import LineCollection
    from matplotlib.colors import to_hex
    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                out.append((to_hex(c.get_color()[0]), np.asarray(s).reshape(-1)))
    return out


def dots(ax):
    from matplotlib.collections import PathCollection
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def match(obs, drawn, options, what):
    """drawn: (n, 4) segments; options: per bond the admissible segments; one to one."""
    obs.check(len(drawn) == len(options), f"{what}: {len(drawn)} drawn, {len(options)} expected")
    if not len(drawn):
        return
    opt = np.zeros((len(options), len(drawn)), bool)
    drawn = np.asarray(drawn)
    for k, cand in enumerate(options):
        for c in cand:
            opt[k] |= np.max(np.abs(drawn - c), axis=1) < 1e-6
    m = maximum_bipartite_matching(csr_matrix(opt), perm_type="column")
    bad = [k for k in range(len(options)) if m[k] < 0]
    obs.check(not bad, lambda: f"{what}: not drawn: {options[bad[0]][0]} ({len(bad)} of {len(options)})")
    obs.ev("bonds_drawn", len(options))


VIEW = {"a": 0, "b": 1, "c": 2}


def proj(view, p):
    return np.asarray(p)[..., [VIEW[view[0]], VIEW[view[1]]]]


def bond_options(edges, pos, lat_of, view, conj, directed):
    """edges: {(i, j, n): e} both directions -> admissible segments per drawn bond."""
    out, seen = [], set()
    for (i, j, n) in edges:
        d = lat_of(i, j, n)
        seg = np.concatenate([proj(view, pos[i]), proj(view, pos[i] + d)])
        rev = (j, i, tuple(-x for x in n))
        d2 = lat_of(*rev)
        seg2 = np.concatenate([proj(view, pos[j]), proj(view, pos[j] + d2)])
        if conj:
            c = [seg]
        else:
            if rev in seen:
                continue
            c = [seg, seg2]
        seen.add((i, j, n))
        if not directed:
            c = c + [s[[2, 3, 0, 1]] for s in c]
        out.append(c)
    return out


def cutoff(rng, vals):
    v = np.unique(np.round(np.abs(np.asarray(vals, complex)), 9))
    if rng.random() < 0.5 or v.size < 2:
        return None
    k = int(rng.integers(v.size - 1))
    return float(0.5 * (v[k] + v[k + 1])) if v[k + 1] - v[k] > 1e-6 else None


def judge_cells(obs, ax, arr, view, lat, origin, colour_hop):
    """Borders of cells: lattice lines; the borders of the home cell; two lattice vectors."""
    ia, ib = sorted((VIEW[view[0]], VIEW[view[1]]))
    basis = proj(view, lat[[ia, ib]])
    o = proj(view, origin)
    want = sorted([tuple(np.round(np.concatenate([o, o + b]), 6) + 0.0) for b in basis])
    got = sorted([tuple(np.round(s, 6) + 0.0) for c, s in arr if c != colour_hop])
    obs.check(len(got) == 2 and np.allclose(got, want, atol=3e-6), f"lattice vectors {got} != {want}")
    obs.ev("lattice_arrows", 2)
    if abs(np.linalg.det(basis)) < 0.02:
        return
    inv = np.linalg.inv(basis)
    lines = [s for c, s in segments(ax) if c != colour_hop]
    obs.check(len(lines) >= 4, "cell borders missing")
    const = [set(), set()]
    for s in lines:
        p, q = (s[:2] - o) @ inv, (s[2:] - o) @ inv
        obs.check(np.max(np.abs(np.rint(p) - p)) < 1e-4 and np.max(np.abs(np.rint(q) - q)) < 1e-4,
                  f"cell border off the lattice: {p} {q}")
        p, q = np.rint(p).astype(int), np.rint(q).astype(int)
        obs.check((p[0] == q[0]) != (p[1] == q[1]), f"cell border not along a lattice vector: {p} {q}")
        d = 0 if p[0] == q[0] else 1
        const[d].add(int(p[d]))
        lo, hi = sorted((int(p[1 - d]), int(q[1 - d])))
        obs.check(lo <= 0 and hi >= 1, "cell border misses the home cell")
    for d in range(2):
        obs.check({0, 1} <= const[d], "borders of the home cell missing")
    obs.ev("cells_drawn", len(lines))


def w_cell(rng, obs):
    pc, rc = gen.cell_pair(rng, dims=int(rng.integers(1, 4)), rmax=1, norb=int(rng.integers(1, 5)),
                           nhop=int(rng.integers(1, 9)))
    if rng.random() < 0.1:
        pc = tb.PrimitiveCell(rc.lat * 10, origin=rc.origin * 10, unit=tb.ANG)
        for p, e, l in rc.orbs:
            pc.add_orbital(p, e, l)
        rc.hop = {}
    view = str(rng.choice(["ab", "bc", "ca", "ba", "cb", "ac"]))
    opt = dict(view=view)
    conj = True
    if rng.random() < 0.5:
        opt["with_conj"] = conj = bool(rng.random() < 0.5)
    arrow = True
    if rng.random() < 0.6:
        opt["hop_as_arrows"] = arrow = bool(rng.random() < 0.5)
    cells = orbs = True
    if rng.random() < 0.3:
        opt["with_cells"] = cells = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        opt["with_orbitals"] = orbs = bool(rng.random() < 0.5)
    colour = "#ff0000"
    if rng.random() < 0.6:
        opt["hop_color"], colour = "b", "#0000ff"
    cut = cutoff(rng, list(rc.hop.values()))
    if cut is not None:
        opt["hop_eng_cutoff"] = cut
        obs.ev("cutoffs")
    palette = None
    if rng.random() < 0.4:
        palette = [str(rng.choice(["r", "g", "b", "m"])) for _ in range(rc.n)]
        opt["orb_color"] = lambda orb: [palette[int(o.label[1:])] for o in orb]
    obs.note(n=rc.n, opt=str(sorted((k, str(v)) for k, v in opt.items() if k != "orb_color")))
    obs.hard(len(rc.hop) > 2)
    if rng.random() < 0.1:
        obs.raises(ValueError, lambda: pc.plot(view=str(rng.choice(["aa", "xy", "abc", ""]))), "illegal view")
    save = rng.random() < 0.6
    before = pc.orb_pos_nm.copy(), pc.dr_nm.copy() if rc.hop else None
    with Capture() as cap:
        if save:
            pc.plot(fig_name="fig.png", fig_dpi=20, fig_size=(3, 3), **opt)
            obs.check(os.path.getsize("fig.png") > 0, "no file written")
            os.remove("fig.png")
            obs.ev("saved")
        else:
            pc.plot(**opt)
            obs.ev("shown")
        ax = cap.axes(obs)
        obs.ev("views")
        obs.check(np.array_equal(before[0], pc.orb_pos_nm), "plotting moved the orbitals")
        pos, lat = rc.pos_nm(), rc.lat
        sel = {(i, j, r): e for (r, i, j), e in rc.hop.items() if abs(e) >= (1e-5 if cut is None else cut)}
        opts = bond_options(sel, pos, lambda i, j, n: pos[j] + np.array(n) @ lat - pos[i], view, conj, arrow)
        arr = arrows(ax)
        # lattice vectors are black, bonds in the given colour
        bonds = [s for c, s in (arr if arrow else segments(ax)) if c == colour]
        match(obs, bonds, opts, "bonds of the cell")
        if not arrow:
            obs.check(not [1 for c, _ in arr if c == colour], "arrows drawn although lines were asked for")
        if cells:
            judge_cells(obs, ax, arr, view, lat, rc.origin, colour)
        else:
            obs.check(not [1 for c, s in arr + segments(ax) if c != colour], "cells drawn")
        d = dots(ax)
        if not orbs:
            obs.check(not d, "orbitals drawn")
            return
        images, first = [], proj(view, pos)
        for c in d:
            off = np.asarray(c.get_offsets())
            obs.check(off.shape == first.shape, "number of orbitals drawn")
            images.append(off)
            if palette is not None:
                from matplotlib.colors import to_rgba_array
                obs.close(c.get_facecolors()[:, :3] if len(c.get_facecolors()) > 1 or rc.n == 1
                          else np.repeat(c.get_facecolors()[:, :3], rc.n, 0), to_rgba_array(palette)[:, :3],
                          "colours of orbitals", event="colours")
            else:
                obs.close(np.asarray(c.get_array()), rc.eng(), "orbitals are coloured by energy", tol=1e-9,
                          event="colours")
        obs.ev("orbitals_drawn", len(images) * rc.n)
        allp = np.concatenate(images)
        # every dot is an image of its orbital, the home cell and both ends of each bond are there
        rmax = max([1] + [max(abs(x) for x in r) for (r, i, j) in rc.hop])
        box = np.array(np.meshgrid(*[np.arange(-rmax, rmax + 1)] * 3, indexing="ij")).reshape(3, -1).T
        for o in range(rc.n):
            im = proj(view, pos[o] + box @ lat)
            mine = np.array([x[o] for x in images])
            dist = np.min(np.linalg.norm(mine[:, None] - im[None], axis=2), axis=1)
            obs.check(np.max(dist) < 1e-6, "a dot is not at an orbital")
        need = [p for p in first] + [s[2:] for c, s in arr if c == colour] \
            + ([s[2:] for c, s in segments(ax) if c == colour] if not arrow else [])
        for p in need:
            obs.check(np.min(np.linalg.norm(allp - p, axis=1)) < 1e-6, "an orbital of the home cell or at the end "
                      "of a bond is not drawn")


def super_edges(rs, cut):
    return {k: v for k, v in rs.edges().items() if abs(v) >= cut}


def w_sample(rng, obs):
    sm, rsm, scs, ihs = gen.sample_pair(rng, max_orb=40, dims=2)
    view = str(rng.choice(["ab", "bc", "ca", "ba", "cb", "ac"])) if rng.random() < 0.6 else "ab"
    conj = bool(rng.random() < 0.4)
    arrow = bool(rng.random() < 0.6)
    opt = dict(view=view, with_conj=conj, hop_as_arrows=arrow)
    cells = orbs = True
    if rng.random() < 0.3:
        opt["with_cells"] = cells = False
    if rng.random() < 0.3:
        opt["with_orbitals"] = orbs = False
    vals = [v for s in rsm.supers for v in s.edges().values()] + [v for t in rsm.inter for v in t[2].values()]
    cut = cutoff(rng, vals)
    if cut is not None:
        opt["hop_eng_cutoff"] = cut
        obs.ev("cutoffs")
    cut = 1e-5 if cut is None else cut
    sc_col = ["#ff0000", "#00ff00", "#0000ff", "#800000", "#008000"][:len(scs)]
    ih_col = ["#ff00ff", "#00ffff", "#ffff00", "#800080", "#008080", "#808000"][:len(ihs)]
    obs.note(n=rsm.n, opt=str(sorted(opt.items())))
    obs.hard(len(vals) > 2)
    single = rng.random() < 0.3
    with Capture() as cap:
        if single:      # a supercell and a coupling drawn to the user's own axes
            import matplotlib.pyplot as plt
            fig, ax = plt.subplots(figsize=(3, 3))
            for sc, c in zip(scs, sc_col):
                sc.plot(ax, hop_color=c, **opt)
            o2 = {k: v for k, v in opt.items() if k not in ("with_cells", "with_orbitals")}
            for ih, c in zip(ihs, ih_col):
                ih.plot(ax, hop_color=c, **o2)
        else:
            kw = {}
            if rng.random() < 0.5:
                kw["sc_orb_colors"] = [(lambda ids, c=c: [c] * len(ids)) for c in sc_col]
            sm.plot(fig_name="s.png", fig_dpi=20, fig_size=(3, 3), sc_hop_colors=sc_col, inter_hop_colors=ih_col,
                    **kw, **opt)
            obs.check(os.path.getsize("s.png") > 0, "no file written")
            os.remove("s.png")
            obs.ev("saved")
            ax = cap.axes(obs)
        obs.ev("views")
        obs.ev("samples")
        arr = arrows(ax)
        pool = arr if arrow else segments(ax)
        for rs, c in zip(rsm.supers, sc_col):
            p = rs.pos()
            e = super_edges(rs, cut)
            o = bond_options(e, p, lambda i, j, n: p[j] + np.array(n) @ rs.sc_lat - p[i], view, conj, arrow)
            match(obs, [s for k, s in pool if k == c], o, "bonds of a supercell")
        for (ib, ik, terms), c in zip(rsm.inter, ih_col):
            pb, pk = rsm.supers[ib].pos(), rsm.supers[ik].pos()
            o = []
            for (n, i, j), e in terms.items():
                if abs(e) < cut:
                    continue
                d = pk[j] + np.array(n) @ rsm.supers[ik].sc_lat - pb[i]
                s1 = np.concatenate([proj(view, pb[i]), proj(view, pb[i] + d)])
                s2 = np.concatenate([proj(view, pk[j]), proj(view, pk[j] - d)])
                t = [[s1], [s2]] if conj else [[s1]]
                o += t if arrow else [x + [x[0][[2, 3, 0, 1]]] for x in t]
            match(obs, [s for k, s in pool if k == c], o, "bonds of a coupling")
            obs.ev("couplings")
        d = dots(ax)
        if orbs:
            obs.check(len(d) == len(scs), "one group of dots per supercell")
            for c, rs in zip(d, rsm.supers):
                obs.close(np.asarray(c.get_offsets()), proj(view, rs.pos()), "positions of dots", tol=1e-7)
                if single or "sc_orb_colors" not in kw:
                    obs.close(np.asarray(c.get_array()), rs.eng(), "dots are coloured by energy", tol=1e-9,
                              event="colours")
            obs.ev("orbitals_drawn", rsm.n)
        else:
            obs.check(not d, "orbitals drawn")
        mine = set(sc_col) | set(ih_col)
        rest = [s for k, s in arr if k not in mine]
        lines = [s for k, s in segments(ax) if k not in mine]
        if cells:
            obs.check(len(rest) == 2 * len(scs), "lattice vectors of every supercell")
            ia, ib = sorted((VIEW[view[0]], VIEW[view[1]]))
            want = []
            for rs in rsm.supers:
                o = proj(view, rs.cell.origin)
                bs = proj(view, rs.cell.lat[[ia, ib]])
                na, nb = rs.dim[ia], rs.dim[ib]
                want += [np.concatenate([o + k * bs[0], o + k * bs[0] + nb * bs[1]]) for k in range(na + 1)]
                want += [np.concatenate([o + k * bs[1], o + k * bs[1] + na * bs[0]]) for k in range(nb + 1)]
            match(obs, lines, [[s, s[[2, 3, 0, 1]]] for s in want], "cell borders of the supercells")
            obs.ev("cells_drawn", len(lines))
            obs.ev("lattice_arrows", len(rest))
        else:
            obs.check(not rest and not lines, "cells drawn")
        if single:
            import matplotlib.pyplot as plt
            plt.close(fig)


def w_curves(rng, obs):
    vis = tb.Visualizer()
    nk, nb = int(rng.integers(3, 40)), int(rng.integers(1, 7))
    kind = str(rng.choice(["bands", "xy", "dos", "phases", "polar"]))
    obs.note(kind=kind, nk=nk, nb=nb)
    obs.hard()
    called = []
    kw = dict(fig_name="c.png", fig_dpi=20, fig_size=(3, 3)) if rng.random() < 0.6 else {}
    if rng.random() < 0.5:
        kw["beautifier"] = lambda: called.append(1)
    if kind == "bands" and rng.random() < 0.15:
        nb = int(rng.integers(20, 130))
    x = np.cumsum(rng.uniform(0.01, 1, nk)) - 0.005
    if kind != "bands" and rng.random() < 0.4:
        x -= x[nk // 2]
    y = rng.normal(size=(nk, nb)) * 3
    want_lab = {"bands": ["k (1/nm)", "Energy (eV)"], "dos": ["Energy (eV)", "DOS (1/eV)"], "xy": ["", ""]}.get(
        kind, ["$k_b (G_b)$", r"$\theta$"])
    for d, key in enumerate(("x_label", "y_label")):
        if rng.random() < 0.5:
            kw[key] = want_lab[d] = f"{key}!"
    lims = {}
    if kind in ("xy", "dos"):
        for key in ("x_lim", "y_lim"):
            if rng.random() < 0.5:
                kw[key] = lims[key] = tuple(sorted(rng.normal(size=2) * 3 + [0, 0.5]))
    colour = "#ff0000"
    if rng.random() < 0.5:
        kw["color"] = colour = "#0000ff"
    keep = x.copy(), y.copy()
    with Capture() as cap:
        if kind == "bands":
            x[0] = 0
            keep = x.copy(), y.copy()
            ki = np.unique(rng.integers(0, nk, 4))
            if rng.random() < 0.2 and nk > 5:       # a path with a point given twice
                x[2] = x[1]
                ki = np.unique(np.r_[ki, 1, 2])
                keep = x.copy(), y.copy()
            lab = [f"K{i}" for i in range(len(ki))]
            vis.plot_bands(x, y, ki, lab, **kw)
        elif kind == "xy":
            y = y[:, 0].copy()
            keep = x.copy(), y.copy()
            vis.plot_xy(x, y, **kw)
        elif kind == "dos":
            y = y[:, 0].copy()
            keep = x.copy(), y.copy()
            vis.plot_dos(x, y, **kw)
        else:
            scatter = bool(rng.random() < 0.5)
            if not scatter or rng.random() < 0.5:           # points and flat axes are the default
                kw["scatter"] = scatter
            if kind == "polar" or rng.random() < 0.5:
                kw["polar"] = kind == "polar"
            vis.plot_phases(x, y, **kw)
        ax = cap.axes(obs)
    obs.check(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "the data was changed")
    if "beautifier" in kw:
        obs.check(len(called) == 1, "beautifier not called once")
    if "fig_name" in kw:
        obs.check(os.path.getsize("c.png") > 0, "no file written")
        os.remove("c.png")
        obs.ev("saved")
    else:
        obs.ev("shown")
    lines = [np.asarray(ln.get_xydata(), float) for ln in ax.lines]
    if kind == "bands":
        curves = [ln for ln in lines if len(ln) == nk]
        obs.check(len(curves) == nb, f"{len(curves)} bands drawn, {nb} given")
        for i, c in enumerate(curves):
            obs.close(c, np.c_[x, y[:, i]], "band drawn", tol=1e-12)
        bars = sorted(ln[0, 0] for ln in lines if len(ln) == 2 and ln[0, 0] == ln[1, 0])
        obs.close(bars, x[ki], "marks of k-points", tol=1e-12)
        obs.close(ax.get_xticks(), x[ki], "ticks", tol=1e-12)
        if len(np.unique(x[ki])) == len(ki):
            obs.check([t.get_text() for t in ax.get_xticklabels()] == lab, "tick labels")
        obs.close(ax.get_xlim(), [0, x.max()], "range of the path", tol=1e-12)
    elif kind in ("xy", "dos"):
        obs.check(len(lines) == 1, "one curve")
        obs.close(lines[0], np.c_[x, y], "curve drawn", tol=1e-12)
        for key, get in (("x_lim", ax.get_xlim), ("y_lim", ax.get_ylim)):
            if key in lims:
                obs.close(get(), lims[key], key, tol=1e-12)
    else:
        got = [np.asarray(c.get_offsets(), float) for c in dots(ax)] if scatter else lines
        obs.check(len(got) == nb, f"{len(got)} phases drawn, {nb} given")
        for i, c in enumerate(got):
            want = np.c_[y[:, i], x] if kind == "polar" else np.c_[x, y[:, i]]
            obs.close(c, want, "phases drawn", tol=1e-12)
    obs.check([ax.get_xlabel(), ax.get_ylabel()] == want_lab, lambda: f"labels {ax.get_xlabel()!r} "
              f"{ax.get_ylabel()!r} != {want_lab}")
    from matplotlib.colors import to_hex
    for ln in ax.lines:
        if len(ln.get_xdata()) == nk and nk > 2:
            obs.check(to_hex(ln.get_color()) == colour, "colour of the curve")
    for c in dots(ax):
        obs.check(to_hex(c.get_facecolors()[0]) == colour, "colour of the dots")
    obs.check((ax.name == "polar") == (kind == "polar"), "kind of axes")
    obs.ev("curves")


def judge_model(obs, ax, pos, edges, lat_of):
    o = bond_options(edges, pos, lat_of, "ab", False, False)
    match(obs, [s for _, s in segments(ax)], o, "bonds of the model under a field")


def w_fields(rng, obs):
    vis = tb.Visualizer()
    obs.hard()
    kind = str(rng.choice(["scalar", "vector", "wfc"]))
    obs.note(kind=kind)
    use_cell = rng.random() < 0.4
    if use_cell:
        model, rc = gen.cell_pair(rng, norb=int(rng.integers(4, 9)), dims=2, rmax=1)
        pos, edges, lats = rc.pos_nm(), {(i, j, r): e for (r, i, j), e in rc.hop.items()}, rc.lat
        scs = [(0, pos, lats)]
        bonds = edges
        lat_of = lambda i, j, n: pos[j] + np.array(n) @ lats - pos[i]
    else:
        model, rsm, _, _ = gen.sample_pair(rng, nsup=int(rng.choice([1, 1, 2])), max_orb=60, vac_frac=0.0, web=False)
        pos, bonds = rsm.pos(), {}
        for s, st in zip(rsm.supers, rsm.start):
            bonds.update({(int(st) + i, int(st) + j, m): e for (i, j, m), e in s.edges().items()})
        for ib, ik, terms in rsm.inter:
            for (m, i, j), e in terms.items():
                i, j = int(rsm.start[ib]) + i, int(rsm.start[ik]) + j
                bonds[(i, j, m)] = e
                bonds[(j, i, tuple(-q for q in m))] = np.conj(e)
        own = np.searchsorted(rsm.start, np.arange(rsm.n), side="right") - 1
        lat_of = lambda i, j, m: pos[j] + np.array(m) @ rsm.supers[max(own[i], own[j])].sc_lat - pos[i]
        if len(rsm.supers) > 1:
            obs.ev("fields_on_layers")
    n = len(pos)
    with_model = bool(rng.random() < 0.5)
    kw = dict(fig_name="f.png", fig_dpi=20, fig_size=(3, 3)) if rng.random() < 0.6 else {}
    bar = False
    if rng.random() < 0.3:
        kw["with_colorbar"] = bar = True
    called = []
    if rng.random() < 0.4:
        kw["beautifier"] = lambda: called.append(1)
    x, y = pos[:, 0].copy(), pos[:, 1].copy()
    if kind != "wfc":
        x, y = rng.uniform(-3, 2, n), rng.uniform(-1, 5, n)
    if np.linalg.svd(np.c_[x, y] - np.c_[x, y].mean(0), compute_uv=False)[1] < 0.05 * n ** 0.5 or n < 5:
        obs.hard(False)
        x, y = rng.uniform(-3, 2, n), rng.uniform(-1, 5, n)
        if n < 5:
            return
        kind = "vector" if kind == "vector" else "scalar"
    a, b, c = rng.uniform(-2, 2, 3)
    z = a * x + b * y + c
    with Capture() as cap:
        if kind == "vector":
            u, v = rng.normal(size=(2, n))
            col = "cmap" if rng.random() < 0.5 else "b"
            vis.plot_vector(x, y, u, v, model=model if with_model else None, arrow_color=col, **kw)
        else:
            scatter = bool(rng.random() < 0.35)
            grid = tuple(int(g) for g in rng.integers(12, 40, 2))
            if rng.random() < 0.25:
                grid = (grid[0], grid[0])
            arg = dict(scatter=scatter, num_grid=grid, **kw)
            if kind == "wfc":
                vis.plot_wfc(model, z, with_model=with_model, **arg)
            else:
                vis.plot_scalar(x, y, z, model=model if with_model else None, **arg)
        ax = cap.axes(obs)
    obs.check(len(called) == ("beautifier" in kw), "beautifier not called once")
    obs.check(len(cap.figs[0].axes) == 1 + bar, "colour bar")
    if "fig_name" in kw:
        os.remove("f.png")
        obs.ev("saved")
    else:
        obs.ev("shown")
    if with_model:
        judge_model(obs, ax, pos, bonds, lat_of)
    else:
        obs.check(not segments(ax), "model drawn")
    if kind == "vector":
        from matplotlib.quiver import Quiver
        q = [k for k in ax.collections if isinstance(k, Quiver)]
        obs.check(len(q) == 1, "one field of arrows")
        obs.close(np.c_[q[0].X, q[0].Y, q[0].U, q[0].V], np.c_[x, y, u, v], "arrows", tol=1e-12)
        if col == "cmap":
            obs.close(np.asarray(q[0].get_array()), np.hypot(u, v), "colours of arrows", tol=1e-12)
        obs.ev("vectors")
    elif scatter:
        d = dots(ax)
        obs.check(len(d) == 1, "one group of dots")
        obs.close(np.asarray(d[0].get_offsets()), np.c_[x, y], "dots", tol=1e-12)
        obs.close(np.asarray(d[0].get_array()), z, "values of dots", tol=1e-12)
        obs.ev("images")
    else:
        im = ax.images
        obs.check(len(im) == 1, "one image")
        data = np.ma.filled(np.ma.asarray(im[0].get_array(), dtype=float), np.nan)
        obs.check(data.shape == (grid[1], grid[0]), f"image of shape {data.shape} for (nx, ny) = {grid}")
        ext = im[0].get_extent()
        obs.close(ext, [x.min(), x.max(), y.min(), y.max()], "extent", tol=1e-9)
        obs.check(im[0].origin == "lower", "orientation of the image")
        gx, gy = np.linspace(x.min(), x.max(), grid[0]), np.linspace(y.min(), y.max(), grid[1])
        want = a * gx[None, :] + b * gy[:, None] + c
        ok = np.isfinite(data)
        obs.check(ok.sum() > 0.05 * ok.size, "image is empty")
        # cubic interpolation is exact for a plane up to the estimate of its gradients
        obs.close(data[ok], want[ok], "pixels of an interpolated plane", tol=1e-3)
        obs.ev("images")


def hydrogen(z, n, l, m, d):
    """Real hydrogen-like function at displacements d (bohr)."""
    r = np.linalg.norm(d, axis=-1)
    rho = 2 * z * r / n
    norm = math.sqrt((2 * z / n) ** 3 * math.factorial(n - l - 1) / (2 * n * math.factorial(n + l)))
    rad = norm * np.exp(-rho / 2) * rho ** l * genlaguerre(n - l - 1, 2 * l + 1)(rho)
    with np.errstate(invalid="ignore", divide="ignore"):
        th = np.where(r > 0, np.arccos(np.clip(d[..., 2] / np.where(r > 0, r, 1), -1, 1)), 0.0)
    ph = np.arctan2(d[..., 1], d[..., 0])
    am = abs(m)
    y = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - am) / math.factorial(l + am)) \
        * lpmv(am, l, np.cos(th)) * np.exp(1j * am * ph)
    if m == 0:
        ang = y.real
    else:
        ang = math.sqrt(2) * (-1) ** m * (y.real if m > 0 else y.imag)
    return rad * ang


def w_cube(rng, obs):
    obs.hard()
    vis = tb.Visualizer()
    conv = int(rng.choice([1, 2]))
    kind = str(rng.choice(["real", "imag", "abs2"]))
    if rng.random() < 0.7:
        model, rc = gen.cell_pair(rng, norb=int(rng.integers(1, 4)), dims=3, rmax=1,
                                  lat=gen.lattice(rng) * float(rng.choice([1, 1, 1, 6])),
                                  origin=None if kind == "abs2" else np.zeros(3))
        if rng.random() < 0.4 and rc.n > 1:         # several orbitals of one atom
            model.set_orbital(1, position=rc.orbs[0][0])
            rc.orbs[1][0] = rc.orbs[0][0]
        pos, lat = rc.pos_nm(), rc.lat
    else:
        model, rsm, _, _ = gen.sample_pair(rng, nsup=1, max_orb=8, dims=1, norb=1, displaced=False, mods=False,
                                           origin=np.zeros(3))
        pos, lat = rsm.pos(), rsm.supers[0].sc_lat
    n = len(pos)
    qn = []
    for _ in range(n):
        l = int(rng.integers(0, 4))
        nn = l + 1 + int(rng.integers(0, 6) if rng.random() < 0.2 else rng.integers(0, 3))
        qn.append((int(rng.integers(1, 95) if rng.random() < 0.1 else rng.integers(1, 9)), nn, l, int(rng.integers(-l, l + 1))))
    wfc = rng.normal(size=n) + 1j * rng.normal(size=n)
    arg = {}
    k = np.zeros(3)
    if rng.random() < 0.7:
        k = rng.uniform(-1, 1, 3)
        arg["k_point"] = k.copy()
    rmax = [0, 0, 0]
    if rng.random() < 0.6:
        rmax = [int(v) for v in rng.integers(0, 2, 3)]
        arg["rn_max"] = np.array(rmax)
    res = 0.05
    if rng.random() < 0.6:
        ng = rng.integers(1 if rng.random() < 0.2 else 2, 9, 3)
        arg["cube_size"] = (ng + 0.5) * res
    else:
        res = 0.25
        delta = pos.max(0) - pos.min(0)
        size = np.where(delta >= 1, delta, 1.0)
        if np.any(np.abs(size / res - np.rint(size / res)) < 1e-6) and np.any((delta >= 1)):
            return
        ng = (size / res + 1e-9).astype(int)
    org = pos.min(0)
    if rng.random() < 0.5:
        org = rng.uniform(-1, 1, 3)
        arg["cube_origin"] = org.copy()
    obs.note(n=n, qn=str(qn), rmax=rmax, conv=conv, kind=kind)
    before = pos.copy()
    vis.plot_wfc3d(model, wfc, np.array(qn) if rng.random() < 0.5 else qn, convention=conv, cube_name="w.cube",
                   resolution=res, kind=kind, **arg)
    now = model.orb_pos_nm if isinstance(model, tb.PrimitiveCell) else model.orb_pos
    obs.close(now, before, "positions of the model after plotting", tol=1e-9)
    if "cube_origin" in arg:
        obs.check(np.array_equal(arg["cube_origin"], org), "the given origin was changed")
    text = open("w.cube").read().split("\n")
    os.remove("w.cube")
    nat = int(text[2].split()[0])
    obs.close([float(v) for v in text[2].split()[1:4]], org / BOHR, "origin of the cube", tol=2e-6)
    for d in range(3):
        w = text[3 + d].split()
        obs.check(int(w[0]) == ng[d], f"grid points along {d}: {w[0]} != {ng[d]}")
        step = np.zeros(3)
        step[d] = res / BOHR
        obs.close([float(v) for v in w[1:4]], step, "steps of the cube", tol=2e-6)
    atoms = [[float(v) for v in ln.split()] for ln in text[6:6 + nat]]
    cells = [(i, j, m) for i in range(-rmax[0], rmax[0] + 1) for j in range(-rmax[1], rmax[1] + 1)
             for m in range(-rmax[2], rmax[2] + 1)]
    want = {}
    for p, q in zip(pos, qn):
        for c in cells:
            key = tuple(np.round((p + np.array(c) @ lat) / BOHR, 4) + 0.0)
            want.setdefault(key, set()).add(q[0])
    keys = np.array(list(want))
    obs.check(nat == len(want), f"{nat} atoms written, {len(want)} in the model")
    for a in atoms:
        dist = np.max(np.abs(keys - a[2:5]), axis=1)
        o = int(np.argmin(dist))
        obs.check(dist[o] < 2e-4, "an atom is not at its place")
        obs.check(a[0] in want[tuple(keys[o])], "atomic number")
    obs.check(len({tuple(np.round(a[2:5], 5)) for a in atoms}) == nat, "an atom is written twice")
    data = np.array(" ".join(text[6 + nat:]).split(), float)
    obs.check(data.size == np.prod(ng), f"{data.size} values for {ng} grid points")
    data = data.reshape(ng)
    grid = np.stack(np.meshgrid(*[org[d] + res * np.arange(ng[d]) for d in range(3)], indexing="ij"), -1) / BOHR
    psi = np.zeros(tuple(ng), complex)
    frac = pos @ np.linalg.inv(lat)
    for i in range(n):
        s = 0
        for c in cells:
            ph = np.dot(k, np.array(c) + (frac[i] if conv == 1 else 0))
            s = s + np.exp(2j * np.pi * ph) * hydrogen(*qn[i], grid - (pos[i] + np.array(c) @ lat) / BOHR)
        psi += wfc[i] * s / math.sqrt(len(cells))
    ref_data = {"real": psi.real, "imag": psi.imag, "abs2": np.abs(psi) ** 2}[kind]
    scale = max(1e-3, float(np.max(np.abs(ref_data))))
    obs.close(data / scale, ref_data / scale, "values of the cube", tol=1e-4)
    obs.ev("cubes")
    obs.ev("cube_values", int(data.size))


def w_norm(rng, obs):
    """Orbitals are normalised: integral of the square over a large cube."""
    l = int(rng.integers(0, 4))
    n = l + 1
    m = int(rng.integers(-l, l + 1))
    z = int(rng.integers(1, 4))
    obs.hard()
    obs.note(qn=(z, n, l, m))
    pc = tb.PrimitiveCell(np.eye(3) * 10, unit=tb.ANG)
    pc.add_orbital((0.013, 0.021, 0.017), 0.0)
    ext = 2 * (10.0 + 3 * n * n) / z * BOHR
    res = ext / 60.5
    vis = tb.Visualizer()
    vis.plot_wfc3d(pc, np.array([1.0]), [(z, n, l, m)], rn_max=np.array([0, 0, 0]), cube_name="n.cube",
                   cube_origin=pc.orb_pos_nm[0] - ext / 2, cube_size=np.full(3, ext), resolution=res, kind="abs2")
    text = open("n.cube").read().split("\n")
    os.remove("n.cube")
    data = np.array(" ".join(text[7:]).split(), float)
    obs.check(data.size == 60 ** 3, "size of the cube")
    total = data.sum() * (res / BOHR) ** 3
    obs.check(abs(total - 1) < 0.06, f"|psi|^2 of {(z, n, l, m)} integrates to {total}")
    obs.ev("cubes")


def w_listing(rng, obs):
    pc, rc = gen.cell_pair(rng)
    obs.note(n=rc.n)
    obs.hard(rc.num_terms > 1)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pc.print()
    text = buf.getvalue()
    head, orbs = text.split("Orbitals:\n")
    orbs, hops = orbs.split("Hopping terms:\n")
    num = [float(v) for v in re.findall(r"-?\d+\.\d+", head)]
    obs.close(np.array(num).reshape(4, 3), np.vstack([rc.origin, rc.lat]), "printed lattice", tol=6e-6)
    rows = np.array([[float(v) for v in ln.split()] for ln in orbs.strip().splitlines()])
    obs.close(rows, np.c_[rc.pos(), rc.eng()], "printed orbitals", tol=6e-6)
    got = {}
    for ln in hops.strip().splitlines():
        m = re.match(r"\s*\(([^)]*)\)\s*\(([^)]*)\)\s*(.*)$", ln)
        obs.check(bool(m), f"hopping line not readable: {ln}")
        r = tuple(int(re.sub(r"np\.\w+\(|\)", "", v)) for v in m.group(1).split(","))
        i, j = (int(v) for v in m.group(2).split(","))
        e = complex(m.group(3).replace(" ", ""))
        got[(r, i, j)] = e
        got[(tuple(-v for v in r), j, i)] = e.conjugate()
    obs.check(set(got) == set(rc.hop), "printed hoppings")
    for k, e in rc.hop.items():
        obs.check(abs(got[k] - e) <= 1e-9 * max(1, abs(e)), f"printed hopping {k}")
    obs.ev("listings")


WORKLOADS = {"defaults": W(defaults.c24, 15, 150),
             "cell": W(w_cell, 160, 2500), "sample": W(w_sample, 60, 1000), "curves": W(w_curves, 60, 800),
             "fields": W(w_fields, 80, 1200), "cube": W(w_cube, 120, 2500), "norm": W(w_norm, 6, 60),
             "listing": W(w_listing, 60, 800)}
