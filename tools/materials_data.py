"""Write checks/data/materials.json: energies of the published parameter sets (by hand only,
from the commit the work started from plus its reviewed fixes)."""
import json, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, sys.argv[1] if len(sys.argv) > 1 else "/repo")
import numpy as np
from checks import c23_materials as m
rng = np.random.default_rng(2024)
out = {}
for name, make in m.BUILD.items():
    pc = make()
    a = np.linalg.norm(pc.lat_vec[0])
    g = 2 * np.pi / a
    ks = [[0, 0, 0], [float(g * x) for x in (0.5, 0.2, 0.0)]] + \
        [[float(x) for x in np.append(rng.uniform(-1, 1, 2) * g, 0)] for _ in range(4)]
    rmax = 1.05 * a if name != "black_phosphorus" else 0.24
    out[name] = dict(orbitals=pc.num_orb, lengths=np.linalg.norm(pc.lat_vec, axis=1).tolist(),
                     volume=float(abs(np.linalg.det(pc.lat_vec))), rmax=rmax,
                     shells=sorted([round(float(x), 6) for x in s] for s in m.shells(pc, rmax)),
                     reach=m.reach(pc), k=ks, bands=[np.round(m.hcart(pc, k), 9).tolist() for k in ks])
json.dump(out, open("/verif/checks/data/materials.json", "w"), indent=0)
