#!/opt/venv/bin/python
"""The table of properties; writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note,
      state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, _tech=technique, _note=note))


B, D, T = "tbplas/builder/", "tbplas/diagonal/", "tbplas/tbpm/"
CY, F = "tbplas/cython/", "tbplas/fortran/"

p("C01", "The Bloch Hamiltonian is exactly the one the user wrote down",
  "For every primitive cell and every k-point, the dense and the sparse Hamiltonian and the "
  "overlap matrix equal the sum of the entered on-site terms, hopping terms and their "
  "adjoints with the Bloch phases of the chosen convention, whichever form (tuple, array, "
  "two- or three-component cell index, matrix of hoppings, conjugate entry) the terms were "
  "entered in. They are Hermitian, and periodic in the reciprocal lattice as the convention says.",
  ["inputs", "configurations"], "all lattices, orbitals, hopping terms, entry forms, k-points and both conventions",
  "The tests compare a handful of graphene-like cells at a few k-points.",
  [B + "primitive.py", B + "base.py", B + "overlap.py", CY + "primitive.pyx"],
  ["PrimitiveCell.add_hopping/add_hopping_matrix normalise and conjugate the index",
   "set_ham_dense/set_ham_csr, Overlap.set_overlap_* fill the matrix"],
  "runtime oracle: reference model of the entered terms compared with every matrix the code returns",
  "differential monitor over random models; no bound on shape, sampled k-points",
  observe=["PrimitiveCell.set_ham_dense", "PrimitiveCell.set_ham_csr", "Overlap.set_overlap_dense"])

p("C02", "Edits to a primitive cell take effect at once, completely or not at all",
  "After every sequence of legal edits, everything a primitive cell shows (orbitals, hoppings, "
  "arrays, Hamiltonians, counts) corresponds to the edited contents, never to contents read "
  "earlier. An edit that is rejected raises the documented error and leaves the cell exactly as it was.",
  ["histories", "inputs"], "all interleavings of edits, rejected edits and observations",
  "The tests observe each kind of edit once, on one cell, mostly without reading before editing.",
  [B + "primitive.py", B + "base.py"],
  ["cached arrays are refreshed by sync_array when a fingerprint of the contents changes",
   "IntraHopping keeps one entry per conjugate pair"],
  "runtime monitor: shadow model replays the edit history; every observation compared",
  "random histories of 10-60 edits with similar and hash-colliding values",
  state=[{"name": "PrimitiveCell._hash_dict", "meaning": "fingerprints of the contents the arrays were built from"}],
  observe=["all public properties of PrimitiveCell"])

p("C03", "Derived objects never go stale behind the user's back",
  "While a primitive cell, supercell or coupling is used by a derived object, every attempt to "
  "change it is refused with the documented lock error and changes nothing. After unlocking, "
  "editing and asking the derived object to update, it equals what a fresh construction from "
  "the edited parts would give, and the parts are locked again. A refused construction leaves "
  "its parts open to edits.",
  ["histories"], "all histories of forbidden edits, refused constructions, unlock-edit-update cycles and reads over webs of derived objects",
  "The tests exercise one lock per class and one update path.",
  [B + "base.py", B + "primitive.py", B + "super.py", B + "sample.py"],
  ["Lockable mixin", "OrbitalSet/SuperCell.sync_array, InterHopping, Sample.sync_array"],
  "runtime monitor: trace of edits over object webs checked against fresh reconstruction",
  "random webs and histories")

p("C04", "Orbital numbering of supercells is a bijection",
  "For every supercell size and every set of vacancies, the map between an orbital's index in "
  "the supercell and its (cell, orbital) index is a bijection onto the existing orbitals, "
  "consistent one by one, as arrays, and with the positions and energies reported. Indices of "
  "vacancies and of orbitals that do not exist are rejected with the documented error, and "
  "rejected changes of the vacancies leave them as they were.",
  ["inputs", "histories"], "all sizes, vacancy sets, index values and histories of vacancy changes",
  "The tests check two sizes and two vacancies.",
  [B + "super.py", CY + "super.pyx"], ["OrbitalSet.orb_id_pc2sc/orb_id_sc2pc and their array forms", "OrbitalSet.set_vacancies/add_vacancies"],
  "runtime oracle: exhaustive enumeration of cells and orbitals of each random supercell",
  "every index of every generated supercell is queried")

p("C05", "The bond network of a supercell is complete and exact",
  "Every supercell holds exactly the bonds of its primitive cell between existing orbitals, "
  "wrapped across periodic boundaries and cut at open ones, each counted once with the right "
  "energy and bond vector, then changed exactly as the user's extra terms, displacements, "
  "trimming and couplings say. Supercells too small for their hoppings are refused.",
  ["inputs", "configurations"], "all primitive cells, sizes, boundary conditions, vacancies, modifications",
  "The tests compare a few graphene supercells with stored numbers.",
  [B + "super.py", CY + "super.pyx", B + "base.py"],
  ["SuperCell.get_hop/get_dr/get_orb_pos/get_orb_eng", "build_hop_k in super.pyx", "SCInterHopping.get_hop/get_dr", "SuperCell.trim"],
  "runtime oracle: brute-force enumeration of all bonds compared with the reported network",
  "full comparison of every bond of every generated supercell")

p("C06", "A sample's Hamiltonian is the same in all its representations",
  "For every sample assembled from supercells and couplings and every k-point, the dense, "
  "sparse and transport representations, positions and bond vectors describe one Hermitian "
  "Hamiltonian: the one given bond by bond. On a periodic sample without modifications its "
  "spectrum is that of the primitive cell folded onto the supercell, and saving and loading "
  "arrays reproduces them exactly.",
  ["inputs", "configurations", "histories"], "all samples, k-points, rescalings and disk round trips",
  "The tests compare single samples at k=0 against stored values.",
  [B + "sample.py", CY + "sample.pyx", B + "super.py"],
  ["Sample.init_*, build_ham_csr, build_ham_dxy, set_ham_dense, set_ham_csr, set_k_point, save_array/load_array"],
  "runtime oracle: dense Hamiltonian rebuilt bond by bond and folded spectra",
  "random samples up to about 100 orbitals, three supercells")

p("C07", "Rescaling bounds the spectrum and never changes the physics",
  "After automatic rescaling every eigenvalue of the stored Hamiltonian lies in [-1, 1], for "
  "every sample and after every earlier modification. The stored Hamiltonian times the "
  "reported factor is always the user's Hamiltonian, and explicit rescaling to a given factor "
  "or resetting does exactly that.",
  ["inputs", "histories"], "all samples and sequences of rescaling and other modifications",
  "The tests rescale graphene once.",
  [B + "sample.py", CY + "sample.pyx"], ["Sample.rescale_ham", "get_rescale in sample.pyx", "reset_array"],
  "runtime oracle: exact eigenvalues and product with the factor after each step",
  "random samples and sequences")

p("C08", "A magnetic field enters with the right flux in every gauge",
  "Applying a magnetic field multiplies every bond by the phase of the documented vector "
  "potential integrated along it: the Hamiltonian stays Hermitian, moduli and on-site energies "
  "are unchanged, opposite fields cancel and the phase around any closed loop equals the "
  "enclosed flux over h/e. On open samples all gauges give the same spectrum.",
  ["inputs", "histories"], "all samples, fields, gauges and sequences of fields",
  "The tests only plot one gauge.",
  [B + "sample.py", CY + "sample.pyx"], ["Sample.set_magnetic_field", "set_mag_field_landau/symmetric in sample.pyx"],
  "runtime oracle: bond phases, loop fluxes and gauge-compared spectra",
  "random samples, both signs, 0.01-1000 T")

p("C09", "Cell transformations keep the crystal",
  "Extending, reshaping, slicing, rotating, shifting and merging cells and searching "
  "neighbours preserve the crystal: every orbital keeps its environment of neighbours, bond "
  "vectors and energies, the number of orbitals follows the volume, and bands fold as they "
  "must. Neighbour lists contain exactly the pairs within the given distance.",
  ["inputs", "histories"], "all cells, integer lattice transformations, rotations, couplings and their chains",
  "The tests transform graphene and compare bands by eye.",
  [B + "advanced.py"], ["extend_prim_cell, reshape_prim_cell, make_hetero_layer, spiral_prim_cell, merge_prim_cell, find_neighbors, PCInterHopping"],
  "runtime oracle: geometric environments and folded spectra of the transformed cell",
  "random cells and integer transformations with small entries")

p("C10", "Slater-Koster and spin-orbit terms transform as they must",
  "For every bond direction, pair of s, p, d orbitals and set of integrals, the hopping equals "
  "the two-centre form rotated to that direction: it is rotation covariant, conjugate under "
  "bond reversal and diagonal along the bond. Spin-orbit elements equal those of l.s for every "
  "pair of orbitals and spins.",
  ["inputs"], "all directions, orbital pairs, integrals, spins",
  "The tests check two materials' bands.",
  [B + "advanced.py"], ["SK.eval and its p/d blocks", "SOC.eval"],
  "runtime oracle: numerically rotated real harmonics, angular momentum matrices",
  "random and special directions, all pairs")

p("C11", "Exact diagonalisation returns the spectrum of the model",
  "Bands, states, projections and densities of states equal those of the model's Hamiltonian "
  "for primitive cells, samples, analytical and non-orthogonal models, with both conventions "
  "and solvers, also after the model changed between calls. States are orthonormal "
  "eigenstates, projections sum to one, densities of states integrate to the number of states per "
  "orbital, and k-path lengths are Cartesian distances.",
  ["inputs", "histories", "configurations"], "all models, k-points, options and model changes between calls",
  "The tests compare graphene bands with stored values.",
  [D + "base.py", B + "primitive.py", B + "sample.py", B + "overlap.py"],
  ["DiagSolver.calc_bands/calc_dos/calc_states", "FakePC", "Overlap"],
  "runtime oracle: dense eigenproblem of a shadow model, residuals, sum rules",
  "random models; degenerate bands compared group-wise")

p("C12", "Results do not depend on how work is split over processes",
  "For every number of processes, also larger than the number of work items, every item is "
  "handled exactly once and bands, densities of states, states, phases, spin textures, "
  "polarizabilities, conductivities and correlation functions equal the serial results on every "
  "process that is documented to receive them. Random samples are shared out so that "
  "the average equals the serial average over the same total number of samples.",
  ["configurations", "schedules"], "all process counts, item counts and reductions",
  "The tests run in one process.",
  ["tbplas/parallel.py", "tbplas/utils.py", D + "base.py", D + "lindhard.py", D + "z2.py", D + "magnetic.py", T + "solver.py", T + "analysis.py"],
  ["split_list/split_range, MPIEnv.dist_*/all_reduce/average/bcast", "Solver._dist_sample"],
  "runtime monitor: ranks run as real processes or threads over a recording communicator; event log checked for exactly-once and equality with serial",
  "1-9 ranks")

p("C13", "Lindhard response functions equal their defining sums",
  "For every cell, k-mesh, temperature, chemical potential and frequency grid, dynamic "
  "polarizability, dielectric function and optical conductivity equal their Lindhard and "
  "Kubo-Greenwood sums with the documented prefactors in 2 and 3 dimensions. Both back ends agree, and a q-point "
  "on the mesh gives the same result by the regular and the arbitrary route.",
  ["inputs", "configurations"], "all cells, meshes, q-points, parameters and back ends",
  "The tests compare two materials with plots.",
  [D + "lindhard.py", CY + "lindhard.pyx", F + "lindhard.f90"],
  ["Lindhard.calc_dyn_pol_regular/arbitrary, calc_epsilon, calc_ac_cond, calc_epsilon_q0, grid/frac/cart conversions"],
  "runtime oracle: direct evaluation of the defining sums, back-end and route agreement",
  "random cells up to 5 orbitals, meshes up to 5x5x3")

p("C14", "Time propagation is exact and unitary",
  "For every rescaled sample, initial state, time step and requested set of times, the "
  "propagated states equal the action of exp(-iHt) on the normalised initial state, keep their "
  "norm and are returned in order of time. Times out of range and expansions that cannot "
  "converge are rejected.",
  ["inputs", "configurations"], "all samples, states, time steps, time sets",
  "The tests plot one wave packet.",
  [T + "solver.py", F + "propagation.f90", F + "tbpm.f90", F + "csr.F90", F + "math.F90"],
  ["Solver.calc_psi_t, _get_bessel_series", "cheb_wf_timestep"],
  "runtime oracle: exact exponential by dense diagonalisation; norm monitor",
  "samples up to about 80 orbitals")

p("C15", "Results do not depend on threads and are reproducible",
  "For every number of OpenMP threads, every native calculation gives the same result up to "
  "rounding, repeated runs with the same seed give the same result, and no two threads access the same "
  "data without synchronisation. Different random samples use different random states.",
  ["schedules", "configurations"], "all thread counts and interleavings of the parallel native routines",
  "The tests run with whatever thread count is set and never compare.",
  [F + "tbpm.f90", F + "math.F90", F + "csr.F90", F + "lindhard.f90", F + "kpm.f90", F + "random.f90", F + "funcs.f90"],
  ["OpenMP parallel regions with private and reduction clauses"],
  "ThreadSanitizer on the native code with a happens-before-annotated OpenMP runtime, and cross-thread-count comparison",
  "all parallel routines driven with 1-8 threads")

p("C16", "TBPM correlation functions equal their defining expressions",
  "For every sample, seed, temperature and chemical potential, the correlation functions for "
  "densities of states, optical and DC conductivity, dynamic polarization and Hall moments, and "
  "the quasi-eigenstates and recursion densities, equal their defining expressions evaluated "
  "exactly on the same random states. Averages run over exactly the requested number of samples.",
  ["inputs", "configurations"], "all samples, seeds, parameters",
  "The tests plot graphene.",
  [F + "tbpm.f90", F + "funcs.f90", F + "kpm.f90", F + "propagation.f90", T + "solver.py"],
  ["tbpm_dos/ldos/accond/dyn_pol/dccond/kbdc/eigenstates, ldos_haydock"],
  "runtime oracle: exact matrix functions by dense diagonalisation on the recovered random states",
  "samples up to about 60 orbitals")

p("C17", "Analysis of correlation functions equals the documented integrals",
  "For every correlation function, window, dimension and sample, the derived densities of "
  "states, conductivities, polarizations, dielectric functions, diffusion coefficients and Hall "
  "conductivities equal the documented transforms with the documented grids, prefactors and "
  "spin factor. Densities of states are non-negative and normalised.",
  ["inputs", "configurations"], "all correlation functions, windows, dimensions",
  "The tests plot graphene.",
  [T + "analysis.py", F + "analysis.f90", F + "kpm.f90"], ["Analyzer.calc_*", "cond_from_trace"],
  "runtime oracle: independent evaluation of the documented integrals on random inputs; linearity and sum rules",
  "random correlation functions with 4-40 time steps")

p("C18", "Native code stays inside its arrays and defined behaviour",
  "No legal call, however unusual its sizes, makes the native code read or write outside the "
  "arrays it was given, use memory that was freed or never set, overflow an index, or end the "
  "process.",
  ["inputs", "programs"], "all legal calls",
  "The tests run uninstrumented builds with bounds checks switched off.",
  [CY + "super.pyx", CY + "sample.pyx", CY + "primitive.pyx", CY + "lindhard.pyx", CY + "atom.pyx", F + "tbpm.f90", F + "lindhard.f90", F + "propagation.f90"],
  ["Cython code with boundscheck off", "Fortran code with assumed sizes"],
  "AddressSanitizer/UBSan builds, Cython and gfortran bounds checks, and poison-filled memory under the workloads of the other properties",
  "same generators, with extreme sizes")

p("C19", "Imported Wannier models reproduce the Wannier Hamiltonian",
  "For every set of Wannier90 output files, the imported cell has the lattice, orbitals and "
  "hoppings of those files, with degeneracies and minimal-image vectors accounted for, so "
  "that its Hamiltonian at every k-point equals the Fourier sum Wannier90 defines. The energy "
  "cut-off removes exactly the terms below it.",
  ["inputs"], "all file contents and options",
  "No test imports a Wannier90 model.",
  ["tbplas/adapter/wannier90.py"], ["wan2pc, read_lat_vec, read_orb_pos, read_hop, read_wsvec, apply_wsvec"],
  "runtime oracle: generated files, Fourier sum evaluated directly",
  "random models with 1-5 Wannier functions")

p("C20", "Calculation parameters and saved data survive disk unchanged",
  "Every legal parameter set is accepted, saved and read back equal, every misspelt parameter "
  "is refused before a calculation starts, and every calculation's saved data equals what it "
  "returned. Outputs of different prefixes never overwrite each other.",
  ["inputs", "histories"], "all parameter sets, prefixes and calculations",
  "The tests never read files back.",
  [T + "config.py", T + "solver.py"], ["Config, read_config, Solver.set_output/save_config/_save_data"],
  "runtime monitor: files written in scratch directories compared with returned values",
  "random configurations and calculations")

p("C21", "Lattice and k-point utilities obey their defining identities",
  "Lattice vectors have the requested lengths and angles, reciprocal vectors satisfy the duality relation, coordinate "
  "conversions are exact inverses, rotations are right-handed isometries about the given centre, and areas and volumes are those of the cell, for "
  "every lattice and input form. k-paths, meshes and distances contain exactly the documented points.",
  ["inputs"], "all lattices, coordinates, angles, grids and input forms",
  "The tests check single examples.",
  ["tbplas/base/lattice.py", "tbplas/base/kpoints.py", B + "base.py"], ["gen_lattice_vectors, gen_reciprocal_vectors, frac2cart, cart2frac, rotate_coord, get_lattice_area/volume, gen_kpath/kdist/kmesh"],
  "runtime oracle: defining identities evaluated on every output",
  "random lattices and inputs")

p("C22", "Topological phases and spin textures equal their definitions",
  "Wannier-centre phases are the phases of the unitary parallel-transport loop of the occupied "
  "states at every momentum, independent of the arbitrary phases of the states; the Z2 "
  "number counts crossings of the reference line modulo 2 and is invariant under gauge and trivial band additions. Spin "
  "textures are expectation values of the Pauli matrices in the eigenstates for both spin orderings.",
  ["inputs", "configurations"], "all models, meshes, occupations, spin orderings",
  "The tests plot graphene and bismuth.",
  [D + "z2.py", D + "magnetic.py"], ["Z2.calc_phases/reorder_phases/count_crossing", "SpinTexture.eval, split_spin"],
  "runtime oracle: independent Wilson loops, models with known invariants, gauge scrambling",
  "random models up to 8 orbitals")

p("C23", "Built-in materials have their published symmetry and parameters",
  "Every predefined material, in every variant and with every legal option, is a cell whose lattice, neighbour "
  "distances, hoppings and spin-orbit terms obey the crystal symmetries of the material and reproduce its defining band energies. "
  "Options change exactly what they name, and copies are independent.",
  ["configurations", "inputs"], "all materials, variants, options",
  "The tests build a few variants.",
  ["tbplas/materials/graphene.py", "tbplas/materials/xs2.py", "tbplas/materials/antimonene.py", "tbplas/materials/phosphorene.py"],
  ["make_graphene_*, make_tmdc, make_antimonene, make_black_phosphorus"],
  "runtime oracle: symmetry and analytic band identities", "all variants enumerated, random options")


p("C24", "Figures, listings and cube files show the model and the data",
  "Every figure of a cell, supercell, coupling or sample shows each orbital at its position and each bond above the "
  "cut-off exactly once (twice with conjugates) between its ends, in every view, with the cell borders and lattice "
  "vectors, and drawing never changes the model. Plots of bands, densities, phases, scalar and vector fields show the "
  "given data at the given coordinates on grids of every shape. Cube files hold the Bloch sum of normalised hydrogen-like "
  "orbitals for the chosen convention, momentum and grid, and printed cells list all terms.",
  ["inputs", "configurations"], "all models, views, options, data, orbitals, momenta and grids",
  "The tests never look at a figure or a cube file.",
  ["tbplas/visual.py", B + "visual.py", CY + "atom.pyx", B + "primitive.py", B + "super.py", B + "sample.py"],
  ["Visualizer.plot_*, plot_wfc3d", "ModelViewer projections", "set_cube", "PrimitiveCell.plot/print, SuperCell.plot, SCInterHopping.plot, Sample.plot"],
  "runtime monitor: artists of the figure captured when it is saved or shown, matched one to one with a shadow model",
  "artists, not pixels, are judged; random models up to 60 orbitals",
  observe=["matplotlib Figure.savefig and show", "the written cube file"])

p("C25", "Parameter fitting minimises the documented error",
  "For every band model, reference and set of weights, the error vector is the difference of the bands weighted band by band, "
  "fitting never ends with a larger error than it started from, ends where the error is stationary, and recovers the "
  "parameters of a reference made by the same model. Inputs are left unchanged and wrong numbers of weights are refused; timers and "
  "progress reports add up.",
  ["inputs", "histories"], "all models, references, weights; all histories of timer calls",
  "The tests do not fit anything.",
  [B + "advanced.py", "tbplas/utils.py"], ["ParamFit.estimate_error/fit", "Timer, ProgressBar"],
  "runtime oracle: error recomputed, optimum tested, measured intervals bracketed by an independent clock",
  "1-5 parameters, up to 3 bands")


def main():
    have = {f.split("_")[0].upper() for f in os.listdir(os.path.join(HERE, "checks"))
            if f[0] == "c" and f[1:3].isdigit()}
    todo = [x for x in P if x["id"] in have]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in todo:
            f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
    m = dict(version=1,
             setup_cmd="cd /verif && /opt/venv/bin/python tools/setup.py",
             checks=[dict(property=x["id"],
                          quick_cmd=f"cd /verif && /opt/venv/bin/python check.py {x['id']} --tier quick",
                          thorough_cmd=f"cd /verif && /opt/venv/bin/python check.py {x['id']} --tier thorough",
                          technique=x["_tech"], level="exploration",
                          level_note=x["_note"]) for x in todo],
             not_applicable=[],
             notes="Runtime monitoring and sanitizers; see DESIGN.md. The native code is rebuilt "
                   "from /repo's working tree by every check; no hooks in /repo are needed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for x in todo:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
    print("properties:", " ".join(x["id"] for x in todo))


if __name__ == "__main__":
    main()
