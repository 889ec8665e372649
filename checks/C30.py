"""C30  Collapse of a stellar profile into a black hole."""
import os
import sys
import types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

import sn


def build(data):
    sn.build_patton(data, lambda name, x, m: {
        "mu4": .02 if x < .25 else .4, "M4": 1.4 + .05 * m,
        "Xi": .1, "sc": 1.}[name])


vk.setup_env(build)
import phys as P
from posydon.binary_evol.SN import profile_collapse as pc
from posydon.binary_evol.SN.step_SN import StepSN

C = vk.Check(
    "C30",
    "random rotating profiles are collapsed by the real code; masses, spins, "
    "disks, jets and ejected elements against an independent shell-by-shell "
    "collapse with numerical angular integrals, and against the mass budget; "
    "signature = (family, disk or not, cut, degenerate case)")
Mo = P.MSUN


def profile(rng, m=None, drop=(), slow=None):
    m = float(10 ** rng.uniform(.7, 1.7)) if m is None else m
    n = int(rng.integers(60, 250))
    q = np.sort(rng.random(n - 1))
    q = np.unique(np.round(np.concatenate(([.02], q[q > .021], [1.])), 8))
    mass = m * q
    R = float(10 ** rng.uniform(-.3, 1.0))
    r = R * q ** rng.uniform(.7, 1.6)
    # density consistent with the shells
    vol = 4 * np.pi / 3 * np.diff(np.concatenate(([0.], r ** 3))) \
        * P.RSUN ** 3
    dm = np.diff(np.concatenate(([0.], mass))) * Mo
    rho = dm / vol
    # rotation: from slow to nearly everything in a disk
    jref = P.G * m * Mo / P.C
    k = rng.uniform(-3, -1.2) if slow else (
        rng.uniform(-2.5, .2) if rng.random() < .3 else rng.uniform(.2, .9))
    om = jref * 10 ** k / (r * P.RSUN) ** 2 * q ** rng.uniform(.8, 4.)
    x = np.where(q > .7, rng.uniform(0, .7), 0.)
    y = np.where(q > .3, 1 - x - .02, .1)
    d = {"mass": mass, "radius": r, "logRho": np.log10(rho), "omega": om,
         "x_mass_fraction_H": x, "y_mass_fraction_He": y,
         "he4": y, "he3": 0 * y}
    d = {k_: v for k_, v in d.items() if k_ not in drop}
    out = np.zeros(len(q), dtype=[(k_, "f8") for k_ in d])
    for k_, v in d.items():
        out[k_] = v[::-1]                       # surface first
    return out, m


# --------------------------------------------------------------- Kerr reference
def kerr(a, M):
    """(j_isco, energy per rest mass) of the prograde ISCO"""
    z1 = 1 + np.cbrt(1 - a * a) * (np.cbrt(1 + a) + np.cbrt(1 - a))
    z2 = np.sqrt(3 * a * a + z1 * z1)
    r = 3 + z2 - np.sqrt((3 - z1) * (3 + z1 + 2 * z2))
    d = np.sqrt(r ** 1.5 - 3 * np.sqrt(r) + 2 * a)
    E = (r ** 1.5 - 2 * np.sqrt(r) + a) / (r ** .75 * d)
    L = (r * r - 2 * a * np.sqrt(r) + a * a) / (r ** .75 * d)
    return L * P.G * M / P.C, E, r


GX, GW = np.polynomial.legendre.leggauss(40)


def sin3(th):
    """integral of sin^3 from the pole to th"""
    x = .5 * th * (GX + 1)
    return .5 * th * np.sum(GW * np.sin(x) ** 3)


def reference(pr, mcol, mcen, nu):
    """collapse shell after shell; None where the spin exceeds 1"""
    m = pr["mass"][::-1] * Mo
    r = pr["radius"][::-1] * P.RSUN
    rho = 10 ** pr["logRho"][::-1]
    om = pr["omega"][::-1]
    n = len(m) if m[-1] <= mcol * Mo else int(np.argmax(m > mcol * Mo)) + 1
    m, r, rho, om = m[:n], r[:n], rho[:n], om[:n]
    i0 = int(np.argmin(np.abs(m - mcen * Mo)))
    M = m[i0] - nu * Mo
    y = rho[:i0 + 1] * om[:i0 + 1] * r[:i0 + 1] ** 4
    from scipy.integrate import simpson
    J = 8 * np.pi / 3 * simpson(y, x=r[:i0 + 1]) * (M / m[i0])
    a = J * P.C / P.G / M ** 2
    if a < 0:                  # Simpson's rule on cells that are too irregular
        return dict(irregular=True)
    if i0 == n - 1:
        return dict(M=M / Mo, a=a, acc=np.nan, rad=np.nan, jet=np.nan,
                    total=m[-1] / Mo, disk=False, cell=0.)
    if a > .99:
        a = .99
        J = a * P.G * M * M / P.C
    acc = rad = jet = 0.
    top = 0.
    for i in range(i0 + 1, n):
        dm = m[i] - m[i - 1]
        j, E, _ = kerr(a, M)
        w = (r[i] ** 5 - r[i - 1] ** 5) / 5 * rho[i] * om[i] * 2 * np.pi
        js = om[i] * r[i] ** 2
        if js < j:
            J += w * 4. / 3
            M += dm
            dd = 0.
        else:
            th = np.arcsin(np.sqrt(j / js))
            dd = dm * np.cos(th)
            J += w * 2 * sin3(th) + j * dd
            M += dm - dd + dd * E
            acc += dd * E
            rad += dd * (1 - E)
        a = J * P.C / P.G / M ** 2
        top = max(top, a)
        if a > 1:
            return None
        jet += dd * P.C ** 2 * a * a
    return dict(M=M / Mo, a=a, acc=acc / Mo, rad=rad / Mo, jet=jet,
                total=m[-1] / Mo, disk=acc > 0, top=top)


C.require("disk", 100)
C.require("no disk", 50)
C.require("spin above 1", 10)
C.require("black hole with disk", 20)


@C.family("collapse", 1500, 20000)
def collapse(rng, c):
    pr, m = profile(rng)
    if rng.random() < .08:     # density and mass disagree: spin beyond 1
        pr["logRho"] += rng.uniform(0, .8)
    mcol = m * float(rng.choice([1., 1.2, rng.uniform(.3, 1.)]))
    mcen = min(float(rng.choice([2.51, 3., rng.uniform(1, 4)])), mcol)
    nu = float(rng.choice([0., .5, .5 * rng.random()]))
    mx = .5
    if mcen - nu < .3:
        c.stop()
    want = reference(pr, mcol, mcen, nu)
    s = types.SimpleNamespace(profile=pr.copy())
    c.note(m=m, mcol=mcol, mcen=mcen, nu=nu, want=want)
    if want and want.get("irregular"):
        c.stop()
    if want is not None and abs(want.get("top", 0) - 1) < 1e-6:
        c.stop()
    if want is None:
        c.raises(ValueError, lambda: pc.do_core_collapse_BH(
            s, mcol, mass_central_BH=mcen, neutrino_mass_loss=nu,
            max_neutrino_mass_loss=mx), "a spin above 1 is refused")
        c.count("spin above 1")
        return
    got = pc.do_core_collapse_BH(s, mcol, mass_central_BH=mcen,
                                 neutrino_mass_loss=nu,
                                 max_neutrino_mass_loss=mx)
    c.note(got=got)
    c.close(got["M_BH_total"], want["M"], "mass of the black hole", rtol=1e-8)
    c.close(got["a_BH_total"], want["a"], "spin of the black hole", rtol=1e-6)
    c.close(got["m_disk_accreted"], want["acc"], "mass accreted through the "
            "disk", rtol=1e-6, atol=1e-12)
    c.close(got["m_disk_radiated"], want["rad"], "mass radiated by the disk",
            rtol=1e-6, atol=1e-12)
    c.close(got["BZ_jet_power_total"], want["jet"], "jet energy", rtol=1e-6,
            atol=1e30)
    if not np.isnan(got["m_disk_radiated"]):
        tot = got["M_BH_total"] + got["m_disk_radiated"] + nu
        c.close(tot, want["total"], "black hole, radiation and neutrinos add "
                "up to the collapsing mass", rtol=1e-9)
        cells = np.diff(np.sort(pr["mass"]))
        c.expect(tot <= max(mcol, pr["mass"][0] if mcol >= m else 0)
                 + np.max(cells) + 1e-9, "no more than the remnant mass (to a "
                 "cell) collapses", tot=tot, mcol=mcol)
        c.expect(0 <= got["a_BH_total"] <= 1, "spin between 0 and 1")
        c.count("disk" if want["disk"] else "no disk")
    c.expect(np.array_equal(s.profile, pr), "the profile is left alone")
    c.seen("collapse", want["disk"], mcol < m, mcen == mcol,
           round(want["a"], 1))


@C.family("isco", 600, 8000)
def isco(rng, c):
    a = float(rng.choice([0., 1., .998, rng.random(), rng.random()]))
    M = float(10 ** rng.uniform(0, 3)) * Mo
    r, j, e = pc.compute_isco_properties(a, M)
    J, E, R = kerr(min(a, 1 - 1e-12), M) if a == 1 else kerr(a, M)
    tol = 1e-3 if a > .9999 else 1e-9
    c.close(r, R * P.G * M / P.C ** 2, "ISCO radius", rtol=tol)
    if a < 1:
        c.close(j, J, "angular momentum at the ISCO", rtol=tol)
        c.close(e, E, "energy at the ISCO", rtol=tol)
    k = float(10 ** rng.uniform(0, 30))
    c.close(pc.BZ_jet_power(k, .7, a * a), k * P.C ** 2 * .7 * a * a,
            "Blandford-Znajek energy", rtol=1e-9)
    c.seen("isco", round(a, 1))


@C.family("ejecta", 700, 10000)
def ejecta(rng, c):
    drop = () if rng.random() < .85 else (str(rng.choice(
        ["x_mass_fraction_H", "y_mass_fraction_He", "mass"])),)
    pr, m = profile(rng, drop=drop)
    co = float(rng.choice([0., m, 1.1 * m, rng.random() * m,
                           rng.random() * m]))
    s = types.SimpleNamespace(profile=pr.copy())
    if rng.random() < .05:
        s.profile = None
        drop = ("mass",)
    h, he = pc.get_ejecta_element_mass_at_collapse(s, co, False)
    c.seen("ejecta", bool(drop), co >= m, co == 0)
    if drop:
        c.expect(h == 0. and he == 0., "nothing is known without the profile")
        return
    M = pr["mass"][::-1]
    lo, hi = M[:-1], M[1:]
    out = np.clip(hi - np.maximum(lo, co), 0, None)
    cut = (hi > co) & (lo <= co)
    for got, X in ((h, pr["x_mass_fraction_H"][::-1][1:]),
                   (he, pr["y_mass_fraction_He"][::-1][1:])):
        exact = np.sum(out * X)
        slack = np.sum(((hi - lo) * X)[cut])
        c.expect(exact - slack - 1e-9 <= got <= exact + slack + 1e-9,
                 "ejected element mass is what lies above the remnant, to a "
                 "cell", got=got, exact=exact, slack=slack)
        full = np.sum(((hi - lo) * X)[lo > co])
        c.close(got, full, "the cells above the remnant are ejected",
                rtol=1e-9, atol=1e-12)
    c.expect(h + he <= max(m - co, 0) + 1e-9, "no more than what is left over "
             "is ejected")


@C.family("refuse", 200, 2000)
def refuse(rng, c):
    k = int(rng.integers(3))
    if k < 2:
        pr, m = profile(rng)
        s = types.SimpleNamespace(profile=pr)
        nu = -.1 if k == 0 else .6
        c.raises(ValueError, lambda: pc.do_core_collapse_BH(
            s, m, neutrino_mass_loss=nu, max_neutrino_mass_loss=.5),
            "impossible neutrino losses are refused", nu=nu)
        c.seen("refuse", k)
        return
    d = str(rng.choice(["mass", "radius", "logRho", "omega"]))
    pr, m = profile(rng, m=float(rng.uniform(5, 30)), drop=(d,))
    s = types.SimpleNamespace(profile=pr if rng.random() < .8 else None)
    nu, mcen = .5 * float(rng.random()), float(rng.uniform(2.5, 4))
    got = pc.do_core_collapse_BH(s, m, mass_central_BH=mcen,
                                 neutrino_mass_loss=nu,
                                 max_neutrino_mass_loss=.5)
    c.close(got["M_BH_total"], mcen - nu, "without the profile the central "
            "black hole is what is known", rtol=1e-9)
    c.expect(np.isnan(got["a_BH_total"]) and np.isnan(got["m_disk_radiated"]),
             "and its spin and disk are not")
    c.seen("refuse", "columns", d)


@C.family("supernova", 400, 4000)
def supernova(rng, c):
    """the whole remnant mass of the prescription goes into the black hole"""
    m = float(rng.uniform(12, 45))
    pr, m = profile(rng, m=m, slow=rng.random() < .3)
    mech = str(rng.choice(["Fryer+12-rapid", "Fryer+12-delayed", "direct"]))
    st = StepSN(mechanism=mech, engine="", PISN=None,
                use_interp_values=False, use_profiles=True,
                use_core_masses=False,
                max_neutrino_mass_loss=.5, max_NS_mass=2.5,
                RNG=np.random.default_rng(1))
    s = sn.star(mass=m, he=m, co=.8 * m)
    s.profile = pr.copy()
    ref = sn.star(mass=m, he=m, co=.8 * m)
    mrem, ffb, _ = st.compute_m_rembar(ref, None)
    c.note(m=m, mech=mech, mrem=mrem)
    grav = max(20. / 3 * (np.sqrt(1 + .3 * mrem) - 1), mrem - .5)
    nu = mrem - grav
    if grav < 2.5:
        c.stop()
    want = reference(pr, mrem, 2.5 + nu, nu)
    if want is None or abs(want.get("top", 0) - 1) < 1e-6 \
            or not want.get("top"):
        c.stop()
    with vk.quiet():
        st.collapse_star(s)
    c.expect(s.state == "BH", "a black hole forms", state=s.state)
    c.close(s.mass, want["M"], "mass of the black hole", rtol=1e-6)
    c.close(s.spin, want["a"], "spin of the black hole", rtol=1e-5)
    c.close(s.mass + s.m_disk_radiated + nu, want["total"],
            "nothing is lost but radiation and neutrinos", rtol=1e-8)
    tot = s.mass + s.h1_mass_ej + s.he4_mass_ej
    c.expect(tot <= m * (1 + 1e-9), "remnant and ejecta fit into the star",
             tot=tot)
    c.count("black hole with disk" if want["disk"] else "black hole")
    c.seen("supernova", mech, want["disk"])


C.require("engine NS", 20)
C.require("engine BH", 20)


@C.family("engines", 240, 2400)
def engines(rng, c):
    """Neutron stars and black holes of the engines, with a profile."""
    m = float(rng.uniform(12, 45))
    pr, m = profile(rng, m=m, slow=rng.random() < .6)
    he = m if rng.random() < .5 else float(rng.uniform(10, m))
    cons = bool(rng.integers(2))
    x = float(rng.choice([.1, .15, .35, .45]))
    co = float(rng.choice([2.3, rng.uniform(2.7, 9.9), 12.]))
    engine = bool(rng.integers(4))
    kw = dict(mechanism="Patton&Sukhbold20-engine", engine="N20",
              approx_at_he_depletion=False) if engine else dict(
        mechanism="Fryer+12-delayed", engine="")
    st = StepSN(PISN=None, use_interp_values=False, use_profiles=True,
                use_core_masses=False, max_neutrino_mass_loss=.5,
                max_NS_mass=2.5, conserve_hydrogen_envelope=cons,
                RNG=np.random.default_rng(1), **kw)
    s = sn.star(mass=m, he=he, co=.75 * he if engine else float(
        rng.uniform(1.5, 3.)))
    s.co_core_mass_at_He_depletion, s.avg_c_in_c_core_at_He_depletion = co, x
    s.profile = pr.copy()
    if engine:
        M4, mu4 = 1.4 + .05 * co, .02 if x < .25 else .4
        if co <= 2.5:
            mrem, bh = 1.25, False
        elif co >= 10 or .194 * mu4 * M4 + .058 < mu4:
            mrem, bh = (m if cons else he), True
        else:
            mrem, bh = M4, False
        if 2.5 < co < 10:
            # nearest tabulated masses: the linear table is reproduced to
            # the width of its cells
            tol = .05
        else:
            tol = 1e-9
    else:
        mrem, bh, tol = st.compute_m_rembar(s, None)[0], None, 1e-9
    grav = max(20. / 3 * (np.sqrt(1 + .3 * mrem) - 1), mrem - .5)
    if bh is None:
        bh = grav >= 2.5
        if abs(grav - 2.5) < 1e-9:
            c.stop()
    nu = mrem - grav
    c.note(m=m, he=he, co=co, x=x, cons=cons, engine=engine, mrem=mrem,
           bh=bh)
    if bh:
        want = reference(pr, mrem, 2.5 + nu, nu)
        if want is None or want.get("irregular") \
                or abs(want.get("top", 0) - 1) < 1e-6:
            c.stop()
    with vk.quiet():
        err = st.collapse_star(s)
    c.expect(err is None, "collapse gives a remnant", err=err)
    c.expect(s.state == ("BH" if bh else "NS"), "kind of remnant",
             state=s.state)
    if bh:
        c.close(s.mass, want["M"], "mass of the black hole", rtol=1e-6)
        c.close(s.spin, want["a"], "spin of the black hole", rtol=1e-5)
        c.close([s.m_disk_accreted, s.m_disk_radiated],
                [want["acc"], want["rad"]], "disk", rtol=1e-5, atol=1e-12)
        c.count("engine BH")
    else:
        c.close(s.mass, grav, "mass of the neutron star", 0, tol)
        c.expect((s.spin, s.m_disk_accreted, s.m_disk_radiated)
                 == (0, 0, 0), "neutron stars start without spin or disk")
        c.count("engine NS")
    cell = np.max(np.diff(np.sort(pr["mass"])))
    lo = np.sort(pr["mass"])[:-1]
    hi = np.sort(pr["mass"])[1:]
    for got, k in ((s.h1_mass_ej, "x_mass_fraction_H"),
                   (s.he4_mass_ej, "y_mass_fraction_He")):
        X = pr[k][np.argsort(pr["mass"])][1:]
        out = np.clip(hi - np.maximum(lo, s.mass), 0, None)
        c.expect(abs(got - np.sum(out * X)) <= cell + 1e-9,
                 "ejected element mass is what lies above the remnant, to a "
                 "cell", got=got, want=np.sum(out * X))
    c.seen("engines", engine, bh, cons, co <= 2.5, co >= 10, he < m)


if __name__ == "__main__":
    sys.exit(C.main())
