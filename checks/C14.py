"""C14: two-body dynamics of a supernova explosion."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import phys
import sn
from posydon.binary_evol.SN.step_SN import StepSN

ck = vk.Check("C14", "random and boundary pre-explosion orbits x explosion "
              "models x imposed kicks through the real supernova step; an "
              "independent vector two-body solution is the oracle; a case is "
              "non-trivial by (which star, mechanism, orbit class, kick "
              "class, outcome)")


def step(**kw):
    a = dict(mechanism="direct", PISN=None, use_interp_values=False,
             use_profiles=False, use_core_masses=True,
             max_neutrino_mass_loss=0.5, kick_normalisation="one",
             conserve_hydrogen_envelope=True)
    a.update(kw)
    return StepSN(**a)


def run(st, b):
    with vk.quiet():
        st(b)


def pick(b, which):
    return (b.star_1, b.star_2) if which == 1 else (b.star_2, b.star_1)


def gen_angles(rng):
    k = rng.integers(0, 8)
    M = float(rng.uniform(0, 2 * np.pi))
    th = float(np.arccos(rng.uniform(-1, 1)))
    ph = float(rng.uniform(0, 2 * np.pi))
    if k == 0:
        M = float(rng.choice([0.0, np.pi / 2, np.pi, 1.5 * np.pi]))
    if k == 1:
        th = float(rng.choice([0.0, np.pi / 2, np.pi]))
    if k == 2:
        ph = float(rng.choice([0.0, np.pi / 2, np.pi, 1.5 * np.pi]))
    return M, th, ph


def gen_ecc(rng):
    k = rng.integers(0, 9)
    if k < 2:
        return "circ", 0.0
    if k == 2:
        return "tiny", float(10**rng.uniform(-9, -4))
    if k == 3:
        return "small", float(10**rng.uniform(-4, -1.5))
    if k == 4:
        return "high", float(rng.uniform(0.9, 0.99))
    return "ecc", float(rng.uniform(0.02, 0.9))


def check_bound(c, b, ref, m1, m2, key):
    c.close(b.separation, ref["a"], "post-explosion separation", 1e-6,
            key="separation")
    c.close(b.eccentricity, ref["e"], "post-explosion eccentricity",
            0, 3e-6, key="eccentricity")
    c.close(b.orbital_period, phys.kepler_P(ref["a"], m1, m2),
            "period obeys Kepler's third law", 5e-4, key="period")
    scale = np.linalg.norm(ref["v"]) / phys.KM + np.linalg.norm(ref["vk"]) / phys.KM
    c.close(b.V_sys, ref["Vsys"], "systemic velocity", 1e-6, 1e-6 * scale,
            key="systemic velocity")


def check_disrupted(c, b):
    c.expect(b.state == "disrupted", "unbound binary is disrupted",
             state=b.state)
    c.expect(np.isnan(b.separation) and np.isnan(b.eccentricity)
             and np.isnan(b.orbital_period),
             "a disrupted binary has no orbit", sep=b.separation,
             e=b.eccentricity, P=b.orbital_period)
    check_after(c, b)
    c.expect(list(b.V_sys) == [0, 0, 0], "no systemic velocity without "
             "system", V=b.V_sys)
    t = b.inspiral_time
    c.expect(t is None or np.isnan(t), "no inspiral in a disrupted binary",
             t=t)


def check_after(c, b):
    c.expect(b.time == 1e6, "an explosion takes no time", time=b.time)
    c.expect(b.mass_transfer_case in (None, "None"),
             "mass transfer is over", mt=b.mass_transfer_case)
    # (a star that leaves nothing behind keeps the record of its last orbit)
    gone = "massless_remnant" in (b.star_1.state, b.star_2.state)
    c.expect((gone and b.state == "disrupted")
             or all(getattr(b, k) is None for k in (
        "lg_mtransfer_rate", "rl_relative_overflow_1",
        "rl_relative_overflow_2", "trap_radius", "acc_radius",
        "t_sync_rad_1", "t_sync_conv_1", "t_sync_rad_2", "t_sync_conv_2",
        )), "orbital quantities of before are removed")


def explode(rng, c, which, mpre, mcomp, a, e, M, th, ph, V, st,
            comp_kw=None, **bkw):
    """Build a binary, explode, return (binary, exploding, other)."""
    s = sn.star(mass=mpre, he=mpre, co=0.75 * mpre,
                natal_kick_velocity=V, natal_kick_polar_angle=th,
                natal_kick_azimuthal_angle=ph, natal_kick_mean_anomaly=M)
    o = sn.companion(mass=mcomp, **(comp_kw or {}))
    o.lg_mdot, o.lg_system_mdot, o.log_R, o.surface_h1 = -7., -8., .3, .7
    s1, s2 = (s, o) if which == 1 else (o, s)
    b = sn.binary(s1, s2, a, e, "CC%d" % which, **bkw)
    s, o = pick(b, which)
    b.mass_transfer_case = "case_B1"
    b.lg_mtransfer_rate, b.rl_relative_overflow_1 = -5., .1
    b.rl_relative_overflow_2, b.trap_radius, b.t_sync_rad_1 = .2, 3., 4.
    run(st, b)
    c.expect(o.lg_mdot is None and o.lg_system_mdot is None,
             "mass-loss rates of the companion are reset")
    c.expect((o.log_R, o.surface_h1, o.metallicity) == (.3, .7, 1.),
             "companion otherwise untouched")
    return b, s, o


@ck.family("orbit", quick=900, thorough=12000)
def orbit(rng, c):
    which = int(rng.integers(1, 3))
    mech = str(rng.choice(["direct", "Fryer+12-rapid", "Fryer+12-delayed"]))
    nu_loss = float(rng.choice([0.0, 0.5, 1.0]))
    mpre = float(rng.uniform(3, 40) if rng.random() < .7
                 else rng.uniform(2.2, 6))
    mcomp = float(10**rng.uniform(-0.3, 1.9))
    a = float(10**rng.uniform(0.3, 4))
    ecls, e = gen_ecc(rng)
    M, th, ph = gen_angles(rng)
    # kick scaled to the orbital velocity: none, weak, comparable, strong
    vorb = np.sqrt(phys.G * (mpre + mcomp) * phys.MSUN
                   / (a * phys.RSUN)) / phys.KM
    kcls = str(rng.choice(["none", "weak", "comparable", "strong"],
                          p=[.15, .25, .5, .1]))
    V = {"none": 0.0, "weak": vorb * 10**rng.uniform(-4, -1),
         "comparable": vorb * rng.uniform(.1, 2),
         "strong": vorb * 10**rng.uniform(.3, 1.5)}[kcls]
    V = float(V)
    c.note(which=which, mech=mech, mpre=mpre, mcomp=mcomp, a=a, e=e, M=M,
           theta=th, phi=ph, V=V, neutrino=nu_loss)
    st = step(mechanism=mech, max_neutrino_mass_loss=nu_loss)
    b, s, o = explode(rng, c, which, mpre, mcomp, a, e, M, th, ph, V, st)
    mpost = s.mass
    c.expect(o.mass == mcomp, "companion mass unchanged by the explosion")
    c.expect(s.state in ("NS", "BH") and 0 < mpost <= mpre + 1e-9,
             "remnant", m=mpost, state=s.state)
    ref = sn.kick_reference(mpre, mpost, mcomp, a, e, M, V, th, ph)
    m1, m2 = (mpost, mcomp) if which == 1 else (mcomp, mpost)
    c.expect(b.time == 1e6, "an explosion takes no time")
    c.expect(b.event is None, "event cleared", event=b.event)
    c.expect((s.natal_kick_velocity, s.natal_kick_polar_angle,
              s.natal_kick_azimuthal_angle, s.natal_kick_mean_anomaly)
             == (V, th, ph, M), "imposed kick is kept as imposed")
    c.expect(b.first_SN_already_occurred is True, "first SN recorded")
    if abs(ref["energy"]) < 1e-9:
        c.count("marginal")
        c.stop()
    if ref["energy"] > 0:
        check_disrupted(c, b)
        c.expect(np.isnan(s.spin_orbit_tilt_first_SN)
                 and np.isnan(o.spin_orbit_tilt_first_SN),
                 "no tilt in a disrupted binary")
        c.seen(which, mech, ecls, kcls, "disrupted", s.state)
        c.count("disrupted")
        return
    c.count("bound")
    check_after(c, b)
    c.expect(b.state == "detached", "a bound binary stays bound",
             state=b.state, energy=ref["energy"])
    if b.state != "detached":
        return
    check_bound(c, b, ref, m1, m2, "")
    if np.linalg.norm(ref["h"]) > 1e-3 * np.linalg.norm(
            np.cross([ref["r"] * phys.RSUN, 0, 0], ref["v"])):
        for q, nm in ((s, "exploding"), (o, "companion")):
            c.expect(abs(q.spin_orbit_tilt_first_SN - ref["tilt"]) < 1e-5
                     or (abs(ref["vk"][2]) < 1e-9 * max(V * phys.KM, 1)
                         and abs(abs(q.spin_orbit_tilt_first_SN)
                                 - abs(ref["tilt"])) < 1e-5),
                     "tilt of the %s star after the first explosion" % nm,
                     got=q.spin_orbit_tilt_first_SN, want=ref["tilt"])
    nu = (b.true_anomaly_first_SN - ref["nu"] + np.pi) % (2 * np.pi) - np.pi
    c.expect(abs(nu) < 1e-5, "true anomaly at the explosion",
             got=b.true_anomaly_first_SN, want=ref["nu"])
    c.seen(which, mech, ecls, kcls, "bound", s.state,
           "retro" if abs(ref["tilt"]) > np.pi / 2 else "pro")


@ck.family("noop", quick=120, thorough=1500)
def noop(rng, c):
    """Nothing ejected, no kick: the orbit must be exactly what it was."""
    which = int(rng.integers(1, 3))
    mpre, mcomp = float(rng.uniform(5, 60)), float(10**rng.uniform(-.3, 1.8))
    a = float(10**rng.uniform(.3, 4))
    ecls, e = gen_ecc(rng)
    M, th, ph = gen_angles(rng)
    c.note(which=which, mpre=mpre, mcomp=mcomp, a=a, e=e, M=M)
    st = step(max_neutrino_mass_loss=0.0)
    b, s, o = explode(rng, c, which, mpre, mcomp, a, e, M, th, ph, 0.0, st)
    c.close(s.mass, mpre, "no mass lost", 1e-12)
    c.expect(b.state == "detached", "nothing happened: stays bound",
             state=b.state)
    c.close(b.separation, a, "nothing happened: separation", 1e-9)
    c.close(b.eccentricity, e, "nothing happened: eccentricity", 0, 1e-6)
    c.seen(which, ecls)


@ck.family("two_explosions", quick=250, thorough=3000)
def two(rng, c):
    first = int(rng.integers(1, 3))
    second = 3 - first
    m = {first: float(rng.uniform(6, 40)), second: float(rng.uniform(6, 40))}
    a = float(10**rng.uniform(1, 3.5))
    _, e = gen_ecc(rng)
    vorb = np.sqrt(phys.G * (m[1] + m[2]) * phys.MSUN
                   / (a * phys.RSUN)) / phys.KM
    st = step(mechanism=str(rng.choice(["direct", "Fryer+12-rapid"])))
    K = {}
    stars = {}
    for k in (first, second):
        M, th, ph = gen_angles(rng)
        V = float(vorb * rng.uniform(0.0, 0.7))
        K[k] = (M, th, ph, V)
        state = sn.CC_STATES_HE if k == first else "H-rich_Core_H_burning"
        stars[k] = sn.star(state=sn.CC_STATES_HE, mass=m[k], he=m[k],
                           co=.75 * m[k], natal_kick_velocity=V,
                           natal_kick_polar_angle=th,
                           natal_kick_azimuthal_angle=ph,
                           natal_kick_mean_anomaly=M)
    c.note(first=first, m=m, a=a, e=e, kicks=K)
    b = sn.binary(stars[1], stars[2], a, e, "CC%d" % first)
    stars = {1: b.star_1, 2: b.star_2}
    run(st, b)
    M, th, ph, V = K[first]
    ref = sn.kick_reference(m[first], stars[first].mass, m[second], a, e, M,
                            V, th, ph)
    if abs(ref["energy"]) < 1e-9:
        c.stop()
    c.expect((b.state == "disrupted") == (ref["energy"] > 0),
             "bound/unbound after the first explosion")
    # the other star is at carbon depletion: its explosion follows at once
    if b.state == "disrupted":
        b.event = "CC%d" % second
    c.expect(b.event == "CC%d" % second,
             "the other star's collapse is due", event=b.event)
    b.append_state()
    a1, e1 = b.separation, b.eccentricity
    tilt1 = stars[1].spin_orbit_tilt_first_SN
    nu1 = getattr(b, "true_anomaly_first_SN", None)
    state1 = b.state
    run(st, b)
    if state1 == "disrupted":
        check_disrupted(c, b)
        c.expect(stars[second].state in ("NS", "BH"),
                 "star collapses in a disrupted binary too")
        c.seen("disrupted first", first)
        return
    M, th, ph, V = K[second]
    ref2 = sn.kick_reference(m[second], stars[second].mass,
                             stars[first].mass, a1, e1, M, V, th, ph)
    if abs(ref2["energy"]) < 1e-9:
        c.stop()
    if ref2["energy"] > 0:
        check_disrupted(c, b)
        c.expect(np.isnan(b.inspiral_time), "no inspiral when disrupted")
        c.expect(np.isnan(stars[1].spin_orbit_tilt_second_SN)
                 and np.isnan(stars[2].spin_orbit_tilt_second_SN)
                 and stars[1].spin_orbit_tilt_first_SN == tilt1,
                 "no second tilt in a disrupted binary; the first stays")
        c.seen("disrupted second", first)
        return
    c.expect(b.state == "detached", "stays bound after the second explosion")
    check_bound(c, b, ref2, stars[1].mass, stars[2].mass, "second ")
    if np.linalg.norm(ref2["h"][1:]) > 0:
        t2 = stars[second].spin_orbit_tilt_second_SN
        c.expect(abs(abs(t2) - abs(ref2["tilt"])) < 1e-5,
                 "tilt of the star that exploded second", got=t2,
                 want=ref2["tilt"])
        # combined tilt of the other one: two rotations of the orbital normal
        z = np.array([0., 0, 1])
        zp = phys.rotmat([1, 0, 0], tilt1) @ z
        xp = phys.rotmat(zp, ref2["nu"] - nu1) @ np.array([1., 0, 0])
        zz = phys.rotmat(xp, t2) @ zp
        want = np.arccos(np.clip(zz @ z, -1, 1))
        c.close(stars[first].spin_orbit_tilt_second_SN, want,
                "combined tilt of the first-born remnant", 0, 1e-5)
    want = phys.peters_time(stars[1].mass, stars[2].mass, b.separation,
                            b.eccentricity)
    # time left of a double compact object, in Myr
    c.close(b.inspiral_time * 1e6, want, "inspiral time of the double "
            "compact object", 2e-2)
    c.seen("bound", first, stars[first].state, stars[second].state)


@ck.family("no_orbit", quick=60, thorough=600)
def no_orbit(rng, c):
    """Explosion of a star without a bound companion, and PISNe."""
    which = int(rng.integers(1, 3))
    kind = str(rng.choice(["disrupted", "merged", "initially_single_star",
                           "pisn"]))
    V = float(rng.uniform(0, 500))
    M, th, ph = gen_angles(rng)
    mpre = float(rng.uniform(65, 110)) if kind == "pisn" \
        else float(rng.uniform(5, 30))
    mcomp = float(rng.uniform(1, 30))
    st = step(PISN="Marchant+19")
    c.note(kind=kind, which=which, mpre=mpre)
    comp_kw = {}
    if kind in ("merged", "initially_single_star"):
        comp_kw = dict(state="massless_remnant")
    kw = {} if kind == "pisn" else dict(state=kind)
    b, s, o = explode(rng, c, which, mpre, mcomp, 100., 0.1, M, th, ph, V,
                      st, comp_kw, **kw)
    if kind == "pisn":
        check_disrupted(c, b)
        c.expect(np.isnan(s.spin_orbit_tilt_first_SN)
                 and np.isnan(o.spin_orbit_tilt_first_SN),
                 "no tilt in a disrupted binary")
        c.expect(np.isnan(b.inspiral_time), "no inspiral when disrupted")
        c.expect(s.state == "massless_remnant" and s.mass == 0,
                 "pair-instability leaves nothing", state=s.state)
    else:
        c.expect(b.state == kind, "state kept", state=b.state)
        c.expect(np.isnan(b.separation) and np.isnan(b.orbital_period)
                 and np.isnan(b.eccentricity), "still no orbit")
        check_after(c, b)
        c.expect(list(b.V_sys) == [0, 0, 0], "no systemic velocity")
        c.expect((s.natal_kick_velocity, s.natal_kick_polar_angle,
                  s.natal_kick_azimuthal_angle, s.natal_kick_mean_anomaly)
                 == (V, th, ph, M), "imposed kick is kept as imposed")
        c.expect(s.state in ("NS", "BH"), "remnant formed")
    c.expect(b.first_SN_already_occurred is True, "first SN recorded")
    c.expect(b.event is None, "event cleared", event=b.event)
    c.expect(o.mass == mcomp, "companion mass unchanged")
    c.seen(kind, which)


@ck.family("second_pisn", quick=30, thorough=300)
def second_pisn(rng, c):
    """The second star leaves nothing: first tilts kept, no second ones."""
    which = int(rng.integers(1, 3))
    M, th, ph = gen_angles(rng)
    st = step(PISN="Marchant+19")
    s = sn.star(mass=float(rng.uniform(65, 110)), natal_kick_velocity=10.,
                natal_kick_polar_angle=th, natal_kick_azimuthal_angle=ph,
                natal_kick_mean_anomaly=M)
    o = sn.companion(mass=float(rng.uniform(3, 40)), state="BH")
    o.state = "BH"
    b = sn.binary(*((s, o) if which == 1 else (o, s)), 300., .2,
                  "CC%d" % which)
    s, o = pick(b, which)
    o.state = "BH"
    b.first_SN_already_occurred = True
    t = float(rng.uniform(0, 1))
    s.spin_orbit_tilt_first_SN = o.spin_orbit_tilt_first_SN = t
    run(st, b)
    check_disrupted(c, b)
    c.expect((s.spin_orbit_tilt_first_SN, o.spin_orbit_tilt_first_SN)
             == (t, t), "first tilts kept")
    c.expect(np.isnan(s.spin_orbit_tilt_second_SN)
             and np.isnan(o.spin_orbit_tilt_second_SN),
             "no tilt without a companion")
    c.seen(which)


@ck.family("white_dwarf", quick=80, thorough=800)
def wd(rng, c):
    which = int(rng.integers(1, 3))
    mpre = float(rng.uniform(1.0, 6.0))
    co = float(rng.uniform(0.5, 1.0)) if rng.random() < .8 \
        else float(rng.uniform(1.2, 1.3699))
    co = min(co, 0.95 * mpre)
    mcomp = float(10**rng.uniform(-.3, 1.5))
    a = float(10**rng.uniform(.5, 3.5))
    _, e = gen_ecc(rng)
    s = sn.star(mass=mpre, he=min(mpre, co * 1.02), co=co)
    o = sn.companion(mass=mcomp)
    s1, s2 = (s, o) if which == 1 else (o, s)
    b = sn.binary(s1, s2, a, e, "CC%d" % which)
    s, o = pick(b, which)
    c.note(which=which, mpre=mpre, co=co, mcomp=mcomp, a=a, e=e)
    run(step(), b)
    c.expect(s.state == "WD", "white dwarf", state=s.state)
    c.close(s.mass, co, "white dwarf mass is the CO core mass", 1e-12)
    c.expect(b.state == "detached", "white-dwarf formation does not disrupt")
    c.close(b.eccentricity, e, "eccentricity kept", 1e-12)
    anew = a * (mpre + mcomp) / (co + mcomp)
    c.close(b.separation, anew, "slow mass loss widens a as 1/M", 1e-9)
    c.close(b.orbital_period, phys.kepler_P(anew, s.mass, o.mass),
            "period obeys Kepler's third law", 5e-4)
    check_after(c, b)
    c.expect(b.event is None, "event cleared", event=b.event)
    c.seen(which, co > 1.2)


@ck.family("white_dwarf_alone", quick=30, thorough=200)
def wd_alone(rng, c):
    which = int(rng.integers(1, 3))
    kind = ["disrupted", "merged", "initially_single_star"][c.index % 3]
    s = sn.star(mass=2., he=.9, co=.8)
    o = sn.companion(mass=3., **({} if kind == "disrupted" else
                                 dict(state="massless_remnant")))
    b = sn.binary(*((s, o) if which == 1 else (o, s)), 100., 0., "CC%d"
                  % which, state=kind)
    s, o = pick(b, which)
    c.note(kind=kind, which=which)
    run(step(), b)
    c.expect(b.state == kind, "a star without partner stays without",
             state=b.state)
    c.expect(s.state == "WD" and s.mass == .8 and b.event is None
             and b.time == 1e6, "white dwarf")
    c.seen(kind, which)


@ck.family("kick_off", quick=60, thorough=400)
def kick_off(rng, c):
    """Kicks disabled: adiabatic widening by the lost mass, any star."""
    which = int(rng.integers(1, 3))
    mpre, mcomp = float(rng.uniform(3, 30)), float(10**rng.uniform(-.3, 1.8))
    a = float(10**rng.uniform(.5, 3.5))
    s = sn.star(mass=mpre, he=mpre, co=.7 * mpre)
    o = sn.companion(mass=mcomp)
    s1, s2 = (s, o) if which == 1 else (o, s)
    b = sn.binary(s1, s2, a, 0.0, "CC%d" % which)
    s, o = pick(b, which)
    c.note(which=which, mpre=mpre, mcomp=mcomp, a=a)
    run(step(kick=False, mechanism="Fryer+12-rapid"), b)
    anew = a * (mpre + mcomp) / (s.mass + mcomp)
    c.close(b.separation, anew, "kick off: a as 1/M", 1e-9)
    c.close(b.orbital_period, phys.kepler_P(anew, s.mass, o.mass),
            "kick off: Kepler", 5e-4)
    c.expect(b.state == "detached", "kick off: bound")
    c.seen(which, s.state)


NORMS = ["one_minus_fallback", "one_over_mass",
         "NS_one_minus_fallback_BH_one", "one", "zero"]


@ck.family("normalisation", quick=160, thorough=2500)
def normalisation(rng, c):
    """The same draw with and without normalisation: their exact ratio."""
    norm = NORMS[c.index % 5]
    mech = ["Fryer+12-delayed", "Fryer+12-rapid"][int(rng.integers(0, 2))]
    presc = ["maxwellian", "log_normal"][int(rng.integers(0, 2))]
    he = float(rng.uniform(2.2, 20))
    co = float(min(rng.uniform(1.5, 12), he - .3)) \
        if rng.uniform() < .6 else float(rng.uniform(1.5, min(he - .3, 3.5)))
    mpre = he + float(rng.choice([0, rng.uniform(0, 10)]))
    which = int(rng.integers(1, 3))
    seed = int(rng.integers(1, 2**31))
    V = {}
    for nm in (norm, "one"):
        kw = dict(mechanism=mech, kick_prescription=presc, ECSN="Tauris+15")
        if presc == "log_normal":
            kw.update(sigma_kick_CCSN_NS=.68, sigma_kick_CCSN_BH=.5,
                      sigma_kick_ECSN=.3, mean_kick_CCSN_NS=270.,
                      mean_kick_CCSN_BH=150., mean_kick_ECSN=30.)
        else:
            kw.update(sigma_kick_CCSN_NS=265., sigma_kick_CCSN_BH=120.,
                      sigma_kick_ECSN=20.)
        st = step(kick_normalisation=nm, RNG=np.random.default_rng(seed), **kw)
        mk = lambda: sn.star(mass=mpre, he=he, co=co)
        s = mk()
        o = sn.companion(mass=10.)
        s1, s2 = (s, o) if which == 1 else (o, s)
        b = sn.binary(s1, s2, 100., 0.1, "CC%d" % which)
        s, o = pick(b, which)
        probe = mk()
        pb = sn.binary(*((probe, sn.companion(mass=10.)) if which == 1 else
                         (sn.companion(mass=10.), probe)), 100., .1,
                       "CC%d" % which)
        probe, _ = pick(pb, which)
        with vk.quiet():
            step(kick_normalisation=nm, RNG=np.random.default_rng(seed),
                 **kw).collapse_star(probe)
        run(st, b)
        V[nm] = s.natal_kick_velocity
    isbh = s.state == "BH"
    c.note(norm=norm, mech=mech, he=he, co=co, mpre=mpre, fb=probe.f_fb,
           state=s.state)
    f = {"one_minus_fallback": 1 - probe.f_fb,
         "one_over_mass": 1.4 / s.mass if isbh else 1.0,
         "NS_one_minus_fallback_BH_one": 1.0 if isbh else 1 - probe.f_fb,
         "one": 1.0, "zero": 0.0}[norm]
    c.close(V[norm], V["one"] * f, "kick normalisation", rtol=1e-9,
            atol=1e-9)
    c.seen(norm, mech, presc, s.state, round(float(probe.f_fb), 1))


@ck.family("drawn_kicks", quick=20, thorough=120)
def drawn(rng, c):
    """Unimposed kicks: distribution of the velocity and isotropy."""
    i = c.index
    norm = NORMS[i % 5]
    presc = "maxwellian" if (i // 5) % 2 == 0 else "log_normal"
    kind = ["NS", "BH", "ECSN"][int(rng.integers(0, 3))]
    which = int(rng.integers(1, 3))
    sig = {"NS": 265., "BH": 120., "ECSN": 20.}
    mean = {"NS": None, "BH": None, "ECSN": None}
    if presc == "log_normal":
        sig = {"NS": .68, "BH": .5, "ECSN": .3}
        mean = {"NS": 270., "BH": 150., "ECSN": 30.}
    st = step(mechanism="Fryer+12-delayed", kick_normalisation=norm,
              kick_prescription=presc, sigma_kick_CCSN_NS=sig["NS"],
              sigma_kick_CCSN_BH=sig["BH"], sigma_kick_ECSN=sig["ECSN"],
              mean_kick_CCSN_NS=mean["NS"], mean_kick_CCSN_BH=mean["BH"],
              mean_kick_ECSN=mean["ECSN"], ECSN="Tauris+15",
              RNG=np.random.default_rng(int(rng.integers(1, 2**31))))
    co = {"NS": 2.0, "BH": 8.0, "ECSN": 1.40}[kind]
    mpre = {"NS": 4.0, "BH": 12.0, "ECSN": 2.0}[kind]
    n = 700
    V, ct, ph, MA = [], [], [], []
    for k in range(n):
        s = sn.star(mass=mpre, he=mpre, co=co)
        o = sn.companion(mass=10.)
        s1, s2 = (s, o) if which == 1 else (o, s)
        b = sn.binary(s1, s2, 100., 0.1, "CC%d" % which)
        s, o = pick(b, which)
        run(st, b)
        V.append(s.natal_kick_velocity)
        ct.append(np.cos(s.natal_kick_polar_angle))
        ph.append(s.natal_kick_azimuthal_angle)
        MA.append(s.natal_kick_mean_anomaly)
        ref = sn.kick_reference(mpre, s.mass, 10., 100., .1, MA[-1], V[-1],
                                s.natal_kick_polar_angle, ph[-1])
        if abs(ref["energy"]) > 1e-9:
            if not c.expect((b.state == "detached") == (ref["energy"] < 0),
                            "drawn kick decides the outcome"):
                break
            if ref["energy"] < 0:
                c.close(b.separation, ref["a"], "drawn kick: separation",
                        1e-6)
    c.note(norm=norm, presc=presc, kind=kind, which=which, state=s.state)
    # f_fb is wiped after the collapse; take its value from the model
    mproto = {"NS": 1.2, "BH": 1.4, "ECSN": co}[kind]
    if kind == "ECSN":
        fb = 0.0
    elif kind == "NS":
        fb = 0.2 / (mpre - mproto)
    else:
        aa = 0.133 - 0.093 / (mpre - mproto)
        fb = aa * co + 1 - 11 * aa
    isbh = s.state == "BH"
    f = {"one_minus_fallback": 1 - fb,
         "one_over_mass": 1.4 / s.mass if isbh else 1.0,
         "NS_one_minus_fallback_BH_one": 1.0 if isbh else 1 - fb,
         "one": 1.0, "zero": 0.0}[norm]
    V = np.array(V)
    key = "ECSN" if kind == "ECSN" else s.state
    if f == 0:
        c.expect(np.all(V == 0), "no kick when switched off")
    else:
        from scipy.stats import maxwell, lognorm
        if presc == "maxwellian":
            cdf = lambda x: maxwell.cdf(x, scale=sig[key])
        else:
            cdf = lambda x: lognorm.cdf(x, s=sig[key], scale=mean[key])
        d = phys.ks_stat(V / f, cdf)
        c.expect(d < 2.9, "kick velocities follow the configured "
                 "distribution and normalisation", ks=d, norm=norm,
                 presc=presc, factor=f, kind=kind)
    u = lambda lo, hi: (lambda x: (x - lo) / (hi - lo))
    c.expect(phys.ks_stat(ct, u(-1, 1)) < 2.9, "kick directions isotropic "
             "(polar)")
    c.expect(phys.ks_stat(ph, u(0, 2 * np.pi)) < 2.9,
             "kick directions isotropic (azimuth)")
    c.expect(phys.ks_stat(MA, u(0, 2 * np.pi)) < 2.9,
             "mean anomaly uniform")
    c.seen(norm, presc, kind, s.state)


ck.require("bound", 100)
ck.require("disrupted", 100)
ck.require("cases:two_explosions", 50)
sys.exit(ck.main())
