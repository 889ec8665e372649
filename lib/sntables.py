"""Random tables for the core-collapse prescriptions."""
import os
import numpy as np
import sn

ENGINES = ["N20", "S19.8", "W15", "W20", "W18"]


def build(data):
    g = np.random.default_rng(77)

    def fn(name, x, m):
        u = g.uniform(-1, 1)
        return {"mu4": 0.05 + 0.02 * m + 0.03 * u,
                "M4": 1.35 + 0.06 * m + 0.15 * u,
                "Xi": 0.05 * m + 0.2 + 0.2 * u,
                "sc": 0.85 + 0.045 * m + 0.1 * u}[name]
    sn.build_patton(data, fn)
    d = os.path.join(data, "Sukhbold+16")
    os.makedirs(d)
    for eng in ENGINES:
        he = np.sort(g.uniform(2, 16, 60))
        st = np.where(g.uniform(size=60) < 0.55, 13, 14)
        st[0], st[-1] = 13, 14
        rem = np.where(st == 13, g.uniform(1.2, 2.0, 60), he)
        with open(os.path.join(d, "results_%s_table.csv" % eng), "w") as f:
            f.write("Mzams,stellar_state,He_c_mass,Rem_mass,fallback_mass\n")
            for a, b, r in zip(he, st, rem):
                f.write("%r,%d,%r,%r,0.0\n" % (float(3 * a), int(b), float(a),
                                               float(r)))

