"""C10: Slater-Koster and spin-orbit matrix elements transform as they must."""
import contextlib
import io

import numpy as np

from vlib import defaults
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random bond directions (also along axes and in coordinate planes), lengths, real "
        "two-centre integrals; all 81 orbital pairs of s, p, d shells; all 324 spin-orbital "
        "pairs of l.s. Non-trivial: generic direction. Oracle: integrals diagonal in the bond "
        "frame, rotated with real-harmonics rotation matrices built numerically from the "
        "orbital functions; l.s built from angular momentum matrices.")
REQUIRED = ["pairs", "rotations", "reversals", "soc_elements", "axis_directions", "printed", "defaults"]

LAB = ["s", "px", "py", "pz", "dxy", "dyz", "dzx", "dx2-y2", "dz2"]
SH = {"s": [0], "p": [1, 2, 3], "d": [4, 5, 6, 7, 8]}


def harmonics(v):
    """The nine real functions on unit vectors, normalised alike."""
    x, y, z = v.T
    s3, s5, s15 = np.sqrt(3), np.sqrt(5), np.sqrt(15)
    return np.stack([np.ones_like(x), s3 * x, s3 * y, s3 * z, s15 * x * y, s15 * y * z,
                     s15 * z * x, s15 / 2 * (x * x - y * y), s5 / 2 * (3 * z * z - 1)], 1)


_PTS = np.random.default_rng(12345).normal(size=(60, 3))
_PTS /= np.linalg.norm(_PTS, axis=1)[:, None]
_Y = harmonics(_PTS)


def rotation(rot):
    """D with Y(rot^-1 p) = Y(p) D: column a = rotated orbital a in the basis."""
    yr = harmonics(_PTS @ rot)          # rot^-1 p = rot^T p
    d, *_ = np.linalg.lstsq(_Y, yr, rcond=None)
    return d


def frame(u):
    """A rotation taking z to u."""
    a = np.array([1.0, 0, 0]) if abs(u[0]) < 0.9 else np.array([0, 1.0, 0])
    x = np.cross(a, u)
    x /= np.linalg.norm(x)
    return np.stack([x, np.cross(u, x), u], 1)


def sk_matrix(u, v):
    """<i,0|H|j,r> for r along u from the bond-frame integrals v."""
    t = np.zeros((9, 9))
    t[0, 0] = v["v_sss"]
    t[0, 3] = v["v_sps"]
    t[3, 0] = -v["v_sps"]
    t[0, 8] = t[8, 0] = v["v_sds"]
    t[3, 3] = v["v_pps"]
    t[1, 1] = t[2, 2] = v["v_ppp"]
    t[3, 8] = v["v_pds"]
    t[8, 3] = -v["v_pds"]
    t[1, 6] = t[2, 5] = v["v_pdp"]
    t[6, 1] = t[5, 2] = -v["v_pdp"]
    t[8, 8] = v["v_dds"]
    t[5, 5] = t[6, 6] = v["v_ddp"]
    t[4, 4] = t[7, 7] = v["v_ddd"]
    d = rotation(frame(u))
    return d @ t @ d.T


NAMES = ["v_sss", "v_sps", "v_sds", "v_pps", "v_ppp", "v_pds", "v_pdp", "v_dds", "v_ddp", "v_ddd"]


def w_sk(rng, obs):
    sk = tb.SK()
    v = {n: float(rng.uniform(-3, 3)) for n in NAMES}
    u = rng.normal(size=3)
    kind = int(rng.integers(5))
    if kind == 0:
        u = np.zeros(3)
        u[int(rng.integers(3))] = rng.choice([-1.0, 1.0])
        obs.ev("axis_directions")
    elif kind == 1:
        u[int(rng.integers(3))] = 0.0
    u /= np.linalg.norm(u)
    length = float(10.0 ** rng.uniform(-3, 2))
    r = u * length
    want = sk_matrix(u, v)
    got = np.zeros((9, 9), complex)
    for i, a in enumerate(LAB):
        for j, b in enumerate(LAB):
            got[i, j] = sk.eval(r, a, b, **v)
            obs.ev("pairs")
    for i in range(9):
        for j in range(9):
            obs.close(got[i, j], want[i, j], f"<{LAB[i]}|H|{LAB[j]}> along {u}", event="rotations")
    # the functions for single shells agree with the common entry
    call = {("s", "s"): lambda a, b: sk.ss(v["v_sss"]),
            ("s", "p"): lambda a, b: sk.sp(r, b, v["v_sps"]),
            ("p", "s"): lambda a, b: sk.ps(r, a, v["v_sps"]),
            ("s", "d"): lambda a, b: sk.sd(r, b, v["v_sds"]),
            ("d", "s"): lambda a, b: sk.ds(r, a, v["v_sds"]),
            ("p", "p"): lambda a, b: sk.pp(r, a, b, v["v_pps"], v["v_ppp"]),
            ("p", "d"): lambda a, b: sk.pd(r, a, b, v["v_pds"], v["v_pdp"]),
            ("d", "p"): lambda a, b: sk.dp(r, b, a, v["v_pds"], v["v_pdp"]),
            ("d", "d"): lambda a, b: sk.dd(r, a, b, v["v_dds"], v["v_ddp"], v["v_ddd"])}
    for i, a in enumerate(LAB):
        for j, b in enumerate(LAB):
            obs.close(call[(a[0], b[0])](a, b), want[i, j], f"shell function <{a}|H|{b}>",
                      event="pairs")
            back = sk.eval(-r, b, a, **v)
            obs.close(back, np.conj(got[i, j]), f"reversed bond <{b}|H|{a}>", event="reversals")
    obs.raises(ValueError, lambda: sk.eval(r, "px", "dxz", **v), "unknown orbital")
    obs.raises(ValueError, lambda: sk.eval(np.zeros(3), "px", "px", **v), "bond of length zero")
    p, d = str(rng.choice(LAB[1:4])), str(rng.choice(LAB[4:]))
    for what, f in (("sp", lambda: sk.sp(r, d)), ("ps", lambda: sk.ps(r, d)), ("sd", lambda: sk.sd(r, p)),
                    ("ds", lambda: sk.ds(r, p)), ("pp", lambda: sk.pp(r, d, p)), ("pp", lambda: sk.pp(r, p, d)),
                    ("pd", lambda: sk.pd(r, d, d)), ("pd", lambda: sk.pd(r, p, p)), ("dp", lambda: sk.dp(r, d, d)),
                    ("dp", lambda: sk.dp(r, p, p)), ("dd", lambda: sk.dd(r, p, d)), ("dd", lambda: sk.dd(r, d, p))):
        obs.raises(ValueError, f, f"{what} of the wrong shell ({p}, {d})")
    obs.note(kind=kind, u=u.tolist())
    obs.hard(kind > 1)


def soc_reference():
    """<i,s|l.s|j,s'> in units of hbar^2, from real harmonics: l = -i r x grad."""
    # matrices of the rotation generators: d/dtheta of the rotation matrices
    eps = 1e-5
    ls = []
    for ax in range(3):
        def rot(t):
            c, s = np.cos(t), np.sin(t)
            m = np.eye(3)
            a, b = (ax + 1) % 3, (ax + 2) % 3
            m[a, a] = m[b, b] = c
            m[a, b], m[b, a] = -s, s
            return rotation(m)
        # D = exp(-i theta L): L = i dD/dtheta
        ls.append(1j * (rot(eps) - rot(-eps)) / (2 * eps))
    sig = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    return sum(0.5 * np.kron(l, s) for l, s in zip(ls, sig))


_SOC = None


def w_soc(rng, obs):
    global _SOC
    if _SOC is None:
        _SOC = soc_reference()
    for cls in ("SOC", "SOCTable", "SOCTable2"):
        o = getattr(tb, cls)()
        m = np.zeros((18, 18), complex)
        order = rng.permutation(324)
        for n in order:
            a, b = divmod(int(n), 18)
            m[a, b] = o.eval(LAB[a // 2], ("up", "down")[a % 2], LAB[b // 2],
                             ("up", "down")[b % 2])
            obs.ev("soc_elements")
        obs.close(m, m.conj().T, f"{cls}: not Hermitian")
        for a in range(18):
            for b in range(18):
                obs.close(m[a, b], _SOC[a, b], f"{cls}: <{LAB[a // 2]},{a % 2}|l.s|"
                          f"{LAB[b // 2]},{b % 2}>", tol=1e-6)
        # j = l +- 1/2 multiplets
        for sh, l in (("p", 1), ("d", 2)):
            ix = [2 * i + s for i in SH[sh] for s in (0, 1)]
            ev = np.linalg.eigvalsh(m[np.ix_(ix, ix)])
            want = [-(l + 1) / 2] * (2 * l) + [l / 2] * (2 * l + 2)
            obs.close(ev, want, f"{cls}: multiplets of the {sh} shell")
        obs.raises(ValueError, lambda: o.eval("f", "up", "s", "up"), f"{cls}: unknown orbital")
        obs.raises(ValueError, lambda: o.eval("s", "left", "s", "up"), f"{cls}: unknown spin")
    # the printed table
    o = tb.SOC()
    for a, sa in enumerate(("up", "down")):
        for b, sb in enumerate(("up", "down")):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                o.print_soc_table(sa, sb)
            table = eval(buf.getvalue().split("\n", 1)[1], {"np": np, "nan": np.nan})
            for i, x in enumerate(LAB):
                for j, y in enumerate(LAB):
                    obs.close(table.get((x, y), 0.0), _SOC[2 * i + a, 2 * j + b], f"printed <{x},{sa}|l.s|{y},{sb}>",
                              tol=2e-5, event="printed")
    obs.raises(ValueError, lambda: o.print_soc_table("left", "up"), "unknown spin")
    obs.note(order=int(order[0]), x=float(rng.random()))
    obs.hard()


WORKLOADS = {"defaults": W(defaults.c10, 15, 150),
             "sk": W(w_sk, 250, 3000), "soc": W(w_soc, 16, 100)}
