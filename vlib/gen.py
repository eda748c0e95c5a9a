"""Generators of models, edits and inputs; all randomness comes from `rng`."""
import numpy as np

from .ref import RefCell


class _Lazy:
    def __getattr__(self, name):
        import tbplas
        return getattr(tbplas, name)


tb = _Lazy()

SIMPLE = [0.0, 1.0, -1.0, -2.0, 2.0, 0.5, -0.5, 3.25]


def real(rng, scale=3.0):
    """A real number; often one of a few small 'nice' values so that equal and
    hash-colliding values occur."""
    if rng.random() < 0.4:
        return float(rng.choice(SIMPLE))
    u = rng.random()
    if u < 0.1:
        return float(rng.uniform(-1, 1) * 10.0 ** rng.integers(-4, 1))
    if u < 0.13:        # far below what matters in print, still a term of the model
        return float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, -4))
    return float(rng.uniform(-scale, scale))


def cplx(rng, scale=3.0):
    r = rng.random()
    if r < 0.35:
        return real(rng, scale)
    if r < 0.45:
        return complex(0.0, real(rng, scale))
    return complex(real(rng, scale), real(rng, scale))


def nonzero(f, *a):
    while True:
        v = f(*a)
        if abs(v) > 1e-3:
            return v


def lattice(rng, two_d=None):
    """A non-degenerate, moderately skewed lattice in Angstrom."""
    if two_d is None:
        two_d = rng.random() < 0.5
    while True:
        if two_d:
            m = np.zeros((3, 3))
            m[:2, :2] = rng.uniform(-3, 3, (2, 2))
            m[2, 2] = rng.uniform(2, 6)
        elif rng.random() < 0.3:
            m = np.diag(rng.uniform(1, 4, 3))
        else:
            m = rng.uniform(-3, 3, (3, 3))
        if rng.random() < 0.2:
            m = np.round(m)
        s = np.linalg.svd(m, compute_uv=False)
        if s[-1] > 0.6 and s[0] / s[-1] < 6:
            return m


def rn(rng, rmax=2, dims=3):
    r = [0, 0, 0]
    for d in range(dims):
        r[d] = int(rng.integers(-rmax, rmax + 1))
    return tuple(r)


def cell_pair(rng, norb=None, nhop=None, rmax=None, dims=None, complex_hop=True,
              origin=None, pos_range=None, connected=False, lat=None, eng=None,
              unique_pos=True):
    """Return (PrimitiveCell, RefCell) built term by term from one description."""
    wide = rmax is None and rng.random() < 0.08      # hoppings to far-away cells
    rmax = (int(rng.integers(4, 13)) if wide else 2) if rmax is None else rmax
    outside = pos_range is None and rng.random() < 0.1
    norb = norb or int(rng.integers(1, 6))
    dims = dims or int(rng.integers(1, 4))
    if lat is None:
        lat = lattice(rng, two_d=(dims == 2) if rng.random() < 0.7 else None)
    if origin is None:
        origin = rng.uniform(-2, 2, 3) if rng.random() < 0.4 else np.zeros(3)
    pc = tb.PrimitiveCell(lat, origin=origin, unit=tb.ANG)
    ref = RefCell(lat * 0.1, np.array(origin) * 0.1)
    for i in range(norb):
        pos = tuple(float(x) for x in rng.uniform(-2 if outside else 0, 3 if outside else pos_range or 1.0, 3))
        if rng.random() < 0.2 and not unique_pos:
            pos = tuple(float(x) for x in rng.choice([0, 0.25, 0.5, 1 / 3, 2 / 3], 3))
        e = real(rng) if eng is None else eng(rng)
        pc.add_orbital(pos, energy=e, label=f"o{i}")
        ref.add_orb(pos, e, f"o{i}")
    nhop = nhop or int(rng.integers(1, 4 * norb + 3))
    def put(r, i, j, e):
        pc.add_hopping(r, i, j, e)
        ref.add_hop(r, i, j, e)
    if connected:
        for i in range(1, norb):
            put((0, 0, 0), i - 1, i, nonzero(cplx if complex_hop else real, rng))
        for d in range(dims):
            r = [0, 0, 0]
            r[d] = 1
            put(tuple(r), int(rng.integers(norb)), int(rng.integers(norb)),
                nonzero(cplx if complex_hop else real, rng))
    tries = 0
    while (ref.num_terms < nhop or not ref.hop) and tries < 200:
        tries += 1
        r = rn(rng, rmax, dims)
        i, j = int(rng.integers(norb)), int(rng.integers(norb))
        if r == (0, 0, 0) and i == j:
            continue
        put(r, i, j, (cplx if complex_hop else real)(rng))
    if not ref.hop:
        put((1, 0, 0), 0, 0, 1.0)
    return pc, ref


def kpoint(rng):
    u = rng.random()
    if u < 0.1:
        return np.zeros(3)
    if u < 0.3:
        return rng.choice([0.0, 0.5, 1 / 3, -0.5, 1.0], 3).astype(float)
    return rng.uniform(-1.5, 1.5, 3)


def max_rn(ref):
    return [max(abs(r[d]) for (r, i, j) in ref.hop) for d in range(3)]


def graphene(t=-2.7, c=10.0):
    a = 2.46
    v = np.array([[a, 0, 0], [a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
    pc = tb.PrimitiveCell(v, unit=tb.ANG)
    pc.add_orbital((0, 0), 0.0, "A")
    pc.add_orbital((1 / 3, 1 / 3), 0.0, "B")
    pc.add_hopping((0, 0), 0, 1, t)
    pc.add_hopping((1, 0), 1, 0, t)
    pc.add_hopping((0, 1), 1, 0, t)
    return pc


def super_spec(rng, rc, extra=2, vac_frac=None, pbc=None):
    """dim, pbc, vacancies fitting the reference cell."""
    m = max_rn(rc)
    dim = tuple(int(2 * m[d] + 1 + (rng.integers(0, extra + 1) if m[d] or rng.random() < 0.4
                                    else 0)) for d in range(3))
    if pbc is None:
        pbc = tuple(bool(x) for x in rng.integers(0, 2, 3))
    ntot = int(np.prod(dim)) * rc.n
    if vac_frac is None:
        vac_frac = rng.choice([0.0, 0.0, 0.05, 0.2, 0.5])
    nv = int(vac_frac * ntot)
    flat = rng.choice(ntot, nv, replace=False) if nv else []
    vac = []
    for f in flat:
        io = int(f % rc.n)
        c = int(f // rc.n)
        vac.append((c // (dim[1] * dim[2]), (c // dim[2]) % dim[1], c % dim[2], io))
    return dim, pbc, vac


def small_cell(rng, **kw):
    """A cell that leaves room for supercells of modest size."""
    kw.setdefault("norb", int(rng.integers(1, 5)))
    kw.setdefault("rmax", 1)
    kw.setdefault("dims", int(rng.integers(1, 4)))
    return cell_pair(rng, **kw)


def pos_modifier(rng):
    """An orbital displacement that depends on the position only."""
    a = rng.uniform(-0.02, 0.02, (3, 3))
    w = rng.uniform(-3, 3, 3)

    def mod(p):
        p += np.sin(p @ np.diag(w)) @ a
    return mod


def sample_pair(rng, nsup=None, max_orb=120, pbc=None, vac_frac=None, inter=True, mods=True,
                dims=2, displaced=None, couple_dup=False, web=True, **cell_kw):
    """Return (Sample, RefSample, [SuperCell], [SCInterHopping]) from one description."""
    from .ref import RefSample, RefSuper
    nsup = nsup or int(rng.choice([1, 1, 2, 3]) if rng.random() < 0.95 else rng.integers(4, 6))
    tries = 0
    while True:
        tries += 1
        specs = []
        for _ in range(nsup):
            kw = dict(norb=int(rng.integers(1, 4)), dims=dims if tries < 40 else 1, connected=True)
            kw.update(cell_kw)
            pc, rc = small_cell(rng, **kw)
            dim, p, vac = super_spec(rng, rc, extra=1, pbc=pbc, vac_frac=vac_frac)
            n = int(np.prod(dim)) * rc.n - len(vac)
            specs.append((pc, rc, dim, p, vac, n))
        if 2 <= sum(x[5] for x in specs) <= max_orb and all(x[5] for x in specs):
            break
        if tries % 10 == 0:
            nsup = max(1, nsup - 1)
    refs, scs = [], []
    for pc, rc, dim, p, vac, n in specs:
        mod = pos_modifier(rng) if (rng.random() < 0.3 if displaced is None
                                    else displaced) else None
        rs = RefSuper(rc, dim, p, vac, pos_mod=mod)
        sc = tb.SuperCell(pc, dim, p, vacancies=vac, orb_pos_modifier=mod)
        if mods and rng.random() < 0.4 and rs.n > 1:
            pairs = {(k[0], k[1]) for k in rs.edges()}
            for _ in range(int(rng.integers(1, 4))):
                i, j = (int(x) for x in rng.integers(rs.n, size=2))
                if i == j or (i, j) in pairs:
                    continue
                pairs |= {(i, j), (j, i)}
                e = cplx(rng)
                sc.add_hopping((0, 0, 0), i, j, e)
                rs.hop_mod.append(((0, 0, 0), i, j, e))
        refs.append(rs)
        scs.append(sc)
    ihs, terms_all = [], []
    if inter and nsup > 1:
        joints = [(a, a + 1) for a in range(nsup - 1)]
        if web and rng.random() < 0.3:      # any supercell with any other, in any order
            joints = [x[::-1] if rng.random() < 0.5 else x for x in joints]
            for _ in range(int(rng.integers(0, 3))):
                joints.append(tuple(int(x) for x in rng.permutation(nsup)[:2]))
            joints = [joints[x] for x in rng.permutation(len(joints))]
        seen = set()
        for a, b in joints:
            ih = tb.SCInterHopping(scs[a], scs[b])
            terms = {}
            for _ in range(int(rng.integers(1, 8))):
                i, j = int(rng.integers(refs[a].n)), int(rng.integers(refs[b].n))
                if (a, i, b, j) in seen and not couple_dup:
                    continue
                seen |= {(a, i, b, j), (b, j, a, i)}
                n = rn(rng, int(rng.choice([1, 1, 3])), int(rng.integers(2, 4))) if rng.random() < 0.5 else (0, 0, 0)
                e = nonzero(cplx, rng)
                ih.add_hopping(n, i, j, e)
                terms[(n, i, j)] = complex(e)
            if terms:
                ihs.append(ih)
                terms_all.append((a, b, terms))
    args = list(scs) + list(ihs)
    if rng.random() < 0.3 and len(args) > 1:      # supercells keep their order
        args = ihs[:1] + scs + ihs[1:]
    return tb.Sample(*args), RefSample(refs, terms_all), scs, ihs


def primed(rng, pc, f):
    """f(), possibly after f() on an earlier state of the cell whose result was changed afterwards."""
    if rng.random() < 0.4 and pc.num_orb:
        i = int(rng.integers(pc.num_orb))
        e, pos, hop = pc.orbitals[i].energy, pc.orbitals[i].position, None
        pc.set_orbital(i, energy=e + 1.5)
        if pc.num_hop:
            rs = [r for r in pc.hoppings if len(pc.hoppings[r])]
            r = rs[int(rng.integers(len(rs)))]
            (a, b), t = next(iter(pc.hoppings[r].items()))
            hop = r, a, b, t
            pc.add_hopping(r, a, b, t * 2 + 0.25)
        x = f()
        if isinstance(x, tb.PrimitiveCell) and x is not pc and x.num_orb:
            x.set_orbital(0, energy=-77.0)
            x.extended = 5.0
        pc.set_orbital(i, position=pos, energy=e)
        if hop:
            pc.add_hopping(*hop)
    return f()
