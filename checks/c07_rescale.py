"""C07: rescaling keeps the spectrum inside [-1, 1] and the physics unchanged."""
import numpy as np

from vlib import gen, ref
from vlib.gen import tb
from vlib.runner import W

RULE = ("Random samples (on-site energies of either sign and up to 60 eV, complex hoppings, "
        "several supercells) under random sequences of automatic and explicit rescaling, "
        "k-point shifts, magnetic fields, changed energies, forced rebuilds of one part and resets. Non-trivial: at least one automatic "
        "rescaling after another modification. Oracle: exact eigenvalues of the stored "
        "Hamiltonian, and stored Hamiltonian times scaling factor = shadow Hamiltonian.")
REQUIRED = ["bounded", "auto", "explicit", "negative_onsite", "physics_kept", "forced"]


def stored(sm):
    return sm.build_ham_csr().toarray()


def w_rescale(rng, obs):
    big = float(rng.choice([0.1, 1, 3, 20]))
    sign = float(rng.choice([-1, 1]))
    style = int(rng.integers(3))
    def eng(r):
        if style == 0:
            return sign * big * float(r.uniform(0.5, 3))     # all of one sign
        return float(r.uniform(-3, 3)) * big
    sm, rs, scs, ihs = gen.sample_pair(rng, eng=eng, max_orb=80)
    base = rs.ham()
    if np.max(np.abs(base)) < 1e-6:
        return
    obs.ev("negative_onsite", int(np.sum(rs.eng() < 0)))
    ops, auto, shift = [], 0, np.zeros(rs.n)
    for _ in range(int(rng.integers(1, 6))):
        op = str(rng.choice(["auto", "auto", "explicit", "kpoint", "field", "reset", "hop", "energy", "disorder"]))
        ops.append(op)
        if op == "auto":
            sm.rescale_ham()
            auto += len(ops) > 1
            ev = np.linalg.eigvalsh(stored(sm))
            obs.check(np.max(np.abs(ev)) <= 1 + 1e-9, f"after {ops}: spectrum of the rescaled "
                      f"Hamiltonian [{ev[0]:.6g}, {ev[-1]:.6g}] leaves [-1, 1]", event="bounded")
            full = np.linalg.eigvalsh(base)
            obs.check(np.max(np.abs(full)) <= sm.energy_range / 2 * (1 + 1e-9),
                      f"after {ops}: eigenvalue {np.max(np.abs(full))} outside the energy range "
                      f"{sm.energy_range}", event="bounded")
            obs.ev("auto")
        elif op == "explicit":
            f = float(np.exp(rng.uniform(-2, 4)))
            sm.rescale_ham(f)
            obs.close(sm.rescale, f, "explicit factor", event="explicit")
        elif op == "kpoint":
            k = gen.kpoint(rng)
            sm.set_k_point(k)
            i, j, v, d = rs.bonds()
            base = None
        elif op == "field":
            sm.set_magnetic_field(float(rng.uniform(-50, 50)), gauge=int(rng.integers(0, 3)))
            base = None
        elif op == "hop":           # hopping terms from scratch, energies as they are
            sm.init_hop(force_init=True)
            base = rs.ham() + np.diag(shift)
            obs.ev("forced")
        elif op == "energy":        # energies from scratch, hopping terms as they are
            sm.init_orb_eng(force_init=True)
            base = base - np.diag(shift)
            shift[:] = 0
            obs.ev("forced")
        elif op == "disorder":      # the user changes the energies in place
            x = rng.uniform(-1, 1, rs.n) * big
            sm.init_orb_eng()
            sm.orb_eng += x / sm.rescale
            shift += x
            base = base + np.diag(x)
        else:
            sm.reset_array()
            base = rs.ham()
            if sm.orb_eng is not None:
                shift[:] = 0
        if base is None:      # k-points and fields are judged elsewhere: take what is there
            base = stored(sm) * sm.rescale
        obs.close(sm.energy_range, 2 * sm.rescale, "energy range", tol=1e-12)
        obs.close(stored(sm) * sm.rescale, base, f"after {ops}: factor times stored "
                  "Hamiltonian", event="physics_kept")
        h = np.zeros_like(base)
        sm.init_orb_eng(), sm.init_hop()
        sm.set_ham_dense(np.zeros(3), h)
        obs.close(h, base, f"after {ops}: unscaled Hamiltonian", event="physics_kept")
        obs.close(sm.set_ham_csr(np.zeros(3)).toarray(), base,
                  f"after {ops}: unscaled sparse Hamiltonian", event="physics_kept")
    obs.note(orbitals=rs.n, ops=ops, big=big, style=style)
    obs.hard(auto)


WORKLOADS = {"rescale": W(w_rescale, 500, 6000)}
