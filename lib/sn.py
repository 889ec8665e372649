"""Fixtures for supernova workloads."""
import os
import numpy as np
import phys

CC_STATES_H = "H-rich_Core_C_depleted"
CC_STATES_HE = "stripped_He_Core_C_depleted"


def build_patton(data, fn):
    """Synthetic Kepler tables: fn(name, X_CO, M_CO) -> value."""
    d = os.path.join(data, "Patton+Sukhbold20")
    os.makedirs(d, exist_ok=True)
    M = np.round(np.linspace(2.5, 10.0, 31), 3)
    X = np.round(np.linspace(0.05, 0.5, 19), 4)
    tabs = {}
    for name in ("mu4", "M4", "Xi", "sc"):
        V = np.array([[fn(name, x, m) for m in M] for x in X])
        tabs[name] = (X, M, V)
        with open(os.path.join(d, "Kepler_%s_table.dat" % name), "w") as f:
            for k in range(6):
                f.write("# header line %d\n" % k)
            f.write("X_CO/M_CO " + " ".join(repr(float(m)) for m in M) + "\n")
            for i, x in enumerate(X):
                f.write(repr(float(x)) + " "
                        + " ".join(repr(float(v)) for v in V[i]) + "\n")
    return tabs


def star(state=CC_STATES_HE, mass=10., he=None, co=None, J=50.0, Z=1.0,
         center_he4=0.0, **kw):
    from posydon.binary_evol.singlestar import SingleStar
    he = mass if he is None else he
    co = 0.8 * he if co is None else co
    a = dict(state=state, mass=mass, he_core_mass=he, co_core_mass=co,
             metallicity=Z, log_total_angular_momentum=J,
             center_he4=center_he4, center_h1=0.0, center_c12=0.0,
             center_n14=0.0, center_o16=0.7, surface_h1=0.0, log_R=0.5,
             surface_he4=0.2, spin=0.0)
    a.update(kw)
    return SingleStar(**a)


def companion(state="H-rich_Core_H_burning", mass=5.0, **kw):
    from posydon.binary_evol.singlestar import SingleStar
    a = dict(state=state, mass=mass, metallicity=1.0)
    a.update(kw)
    return SingleStar(**a)


def binary(s1, s2, a, e, event, state="detached", time=1e6, **kw):
    from posydon.binary_evol.binarystar import BinaryStar
    P = phys.kepler_P(a, s1.mass, s2.mass)
    return BinaryStar(s1, s2, state=state, event=event, time=time,
                      separation=a, orbital_period=P, eccentricity=e, **kw)


# --------------------------------------------------------------------------
def kick_reference(mpre, mpost, mcomp, a, e, Mean, V, theta, phi):
    """Two-body dynamics of an instantaneous explosion, in vectors.

    Companion at rest on the -X side, exploding star at the origin, relative
    position r = |r| (+X); returns dict with the orbit after the explosion.
    """
    G, MS, RS, KM = phys.G, phys.MSUN, phys.RSUN, phys.KM
    Mt0, Mt1 = (mpre + mcomp) * MS, (mpost + mcomp) * MS
    A = a * RS
    E = phys.solve_kepler(Mean, e)
    r = A * (1 - e * np.cos(E))
    # radial and transverse velocity from the orbit equation
    n = np.sqrt(G * Mt0 / A**3)
    rdot = A * e * np.sin(E) * n / (1 - e * np.cos(E))
    h = np.sqrt(G * Mt0 * A * (1 - e**2))
    v = np.array([rdot, h / r, 0.0])
    vhat = v / np.linalg.norm(v)
    # unit vector in the orbital plane, perpendicular to v
    perp = np.array([vhat[1], -vhat[0], 0.0])
    zhat = np.array([0.0, 0.0, 1.0])
    vk = V * KM * (np.cos(theta) * vhat + np.sin(theta)
                   * (np.sin(phi) * perp + np.cos(phi) * zhat))
    vn = v + vk
    rv = np.array([r, 0.0, 0.0])
    ekin, epot = 0.5 * vn @ vn, G * Mt1 / r
    energy = ekin - epot
    out = dict(r=r / RS, E=E, energy=energy / epot, v=v, vk=vk)
    out["nu"] = 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2),
                               np.sqrt(1 - e) * np.cos(E / 2))
    hv = np.cross(rv, vn)
    out["h"] = hv
    hn = np.linalg.norm(hv)
    if energy < 0:
        out["a"] = -G * Mt1 / (2 * energy) / RS
        evec = np.cross(vn, hv) / (G * Mt1) - rv / r
        out["e"] = np.linalg.norm(evec)
    out["Vsys"] = (mpost * vn / (mpost + mcomp)
                   - mpre * v / (mpre + mcomp)) / KM
    ang = np.arctan2(np.hypot(hv[0], hv[1]), hv[2]) if hn > 0 else np.nan
    out["tilt"] = -ang if vk[2] < 0 else ang
    return out
