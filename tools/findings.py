"""Refresh the commit hashes of the repaired defects in known_findings.json
(run by hand, never by a check)."""
import json
import subprocess

MAP = [  # property, subject of the fix commit, what failed
    ("C02", "refresh primitive cell arrays when values differ but their hashes collide",
     "arrays and Hamiltonian stayed stale after an edit between values with equal hashes, e.g. energy -1 -> -2"),
    ("C02", "check all indices before removing any orbital", "a rejected remove_orbitals removed the orbitals before the bad index"),
    ("C02", "allow a HopDict to be added", "adding the same matrix of hoppings to a second cell failed or corrupted it"),
    ("C04", "reject negative indices in OrbitalSet.orb_id_sc2pc", "negative index wrapped around instead of raising IDSCIndexError"),
    ("C04", "leave the vacancies unchanged if any of the new ones is illegal", "a rejected set/add_vacancies changed the vacancies"),
    ("C04", "keep reporting vacancies that the modified primitive cell does not have", "a vacancy lost by removing its orbital was reported once, then silently dropped"),
    ("C05", "keep bond indices integers if the hopping modifier adds no new term", "bond indices became floats and unusable as indices"),
    ("C03", "refuse to remove hopping terms from a locked InterHopping", "a locked coupling could be edited"),
    ("C03", "lock the primitive cell again if it is updated to values with colliding hashes", "cell stayed unlocked after an update whose new values hash alike"),
    ("C08", "use the documented vector potential for the symmetric gauge", "gauge 2 gave another flux than gauges 0 and 1"),
    ("C07", "take absolute values of on-site energies", "negative on-site energies were ignored: spectrum outside [-1, 1]"),
    ("C07", "estimate the rescaling factor from the original Hamiltonian", "rescaling twice gave a factor relative to the scaled Hamiltonian"),
    ("C09", "search the whole reshaped cell for orbitals", "reshaping lost orbitals of cells with negative corners"),
    ("C09", "detect cells extended less than the first one when merging", "merging cells of different extension was accepted"),
    ("C11", "reallocate working arrays of DiagSolver if the model changes its size", "bands were wrong or crashed after the model changed its number of orbitals"),
    ("C12", "synchronize dyn_pol once", "polarizability of all but the last q-point multiplied by powers of the number of processes"),
    ("C12", "allow more processes than", "more processes than k-points raised ValueError"),
    ("C21", "accept lists of fractional coordinates", "list input to frac2cart gave garbage"),
    ("C13", "accept lists of q-points", "list of q-points to calc_epsilon raised"),
    ("C21", "rotating integer coordinates", "integer coordinates were truncated after rotation"),
    ("C16", "store the AC correlation function at the first", "first time step of the optical correlation was left zero"),
    ("C14", "at least 3 Bessel", "short time steps read beyond the Bessel series"),
    ("C16", "terminate the Haydock", "Haydock LDOS was NaN once the recursion exhausted the space (e.g. an isolated site)"),
    ("C18", "Fermi operator", "expansions with fewer than three coefficients read beyond the coefficients"),
    ("C20", "check the parameters of DC_conductivity", "misspelt keys of DC_conductivity and quasi_eigenstates were accepted"),
    ("C19", "degenerac", "degeneracies of Wigner-Seitz points were ignored"),
    ("C19", "wsvec", "minimal-image corrections overwrote each other"),
    ("C23", "c-axis when reshaping", "make_graphene_rect(from_scratch=False) ignored the length of the c-axis"),
    ("C24", "keep the orientation of scalar fields", "scalar fields were scrambled on grids with nx != ny"),
    ("C24", "make the default rn_max", "plot_wfc3d raised TypeError with its default rn_max"),
    ("C24", "draw the orbitals of the home cell", "orbitals and borders of the home cell were missing with with_conj=False"),
    ("C24", "evaluate s orbitals at the nucleus", "s orbitals were zero at the nucleus in cube files"),
    ("C24", "three-digit exponents apart", "values below 1e-99 ran together in cube files, which no reader could take apart"),
    ("C25", "accept integer weights in ParamFit", "integer weights raised TypeError"),
    ("C22", "parallel transport", "closing overlap lacked the phase of the reciprocal lattice vector"),
    ("C02", "add_hopping_dict leaves the cell unchanged", "a rejected add_hopping_dict kept the terms before the bad one"),
    ("C03", "refused supercells and samples neither lock", "refused constructions left their parts locked and broke later updates"),
    ("C07", "of a rescaled sample by force", "init_hop/init_orb_eng(force_init=True) after rescaling mixed scaled and unscaled parts"),
]
EXTRA = []


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True,
                         text=True).stdout.splitlines()
    fixes = [l.split(" ", 1) for l in log if " fix:" in l]
    out, used = [], set()
    for pid, key, what in MAP:
        for h, s in fixes:
            if key in s:
                used.add(h)
                out.append(dict(property=pid, status="fixed", commit=h, what=what,
                                line=f"fixed: property={pid} {h} {what}"))
    for h, s in fixes:
        if h not in used:
            print("not described:", h, s)
    cur = json.load(open("/verif/known_findings.json")) if __import__("os").path.exists(
        "/verif/known_findings.json") else {"findings": []}
    opened = [e for e in cur["findings"] if e["status"] == "open"]
    json.dump({"findings": opened + out}, open("/verif/known_findings.json", "w"), indent=1)
    print(len(out), "fixed", len(opened), "open")


main()
