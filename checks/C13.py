"""C13: remnant of a core collapse, for every prescription."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
import numpy as np
import sn
import phys

TABS = {}
SUKH = {}
COUCH = {}
ENG_P = {'N20': [0.194, 0.0580], 'S19.8': [0.274, 0.0470],
         'W15': [0.225, 0.0495], 'W20': [0.284, 0.0393],
         'W18': [0.283, 0.0430], 'Ertl2020': [0.182, 0.0608]}
ENG_S = ['N20', 'S19.8', 'W15', 'W20', 'W18']
ENG_C = ["1.0", "1.2", "1.23", "1.25", "1.27", "1.3", "1.4"]


def build(data):
    g = np.random.default_rng(77)

    def fn(name, x, m):
        u = g.uniform(-1, 1)
        return {"mu4": 0.05 + 0.02 * m + 0.03 * u,
                "M4": 1.35 + 0.06 * m + 0.15 * u,
                "Xi": 0.05 * m + 0.2 + 0.45 * u,
                "sc": 0.85 + 0.045 * m + 0.35 * u}[name]
    TABS.update(sn.build_patton(data, fn))
    d = os.path.join(data, "Sukhbold+16")
    os.makedirs(d)
    for k, eng in enumerate(ENG_S):
        he = np.sort(g.uniform(2, 16, 60))
        st = np.where(g.uniform(size=60) < 0.55, 13, 14)
        st[0], st[-1] = 13, 14
        fb = np.where((st == 14) & (g.uniform(size=60) < .2), 0.5, 0.0)
        fb[-1] = 0
        rem = np.where(st == 13, g.uniform(1.2, 2.0, 60), he)
        SUKH[eng] = (he, st, fb, rem)
        with open(os.path.join(d, "results_%s_table.csv" % eng), "w") as f:
            f.write("Mzams,stellar_state,He_c_mass,Rem_mass,fallback_mass\n")
            for r in zip(he * 3, st, he, rem, fb):
                f.write("%r,%d,%r,%r,%r\n" % tuple(float(x) if i != 1
                                                   else int(x)
                                                   for i, x in enumerate(r)))
    d = os.path.join(data, "Couch+2020")
    os.makedirs(d)
    mz = np.linspace(8, 120, 80)
    hec = 0.28 * mz**1.05
    with open(os.path.join(d, "Sukhbold_Mzams_He_c_core.csv"), "w") as f:
        f.write("Mzams,He_c_mass\n")
        for a, b in zip(mz, hec):
            f.write("%r,%r\n" % (float(a), float(b)))
    js = {}
    for t in ENG_C:
        zz = np.round(np.sort(g.uniform(9, 100, 40)), 3)
        ee = np.where(g.uniform(size=40) < .4, 0.0, g.uniform(.1, 2, 40))
        js[t] = {repr(float(z)): {"Eexp": float(e)} for z, e in zip(zz, ee)}
        COUCH[t] = (np.interp(zz, mz, hec), ee)
    json.dump(js, open(os.path.join(d, "explDatsSTIR2.json"), "w"))


vk.setup_env(build)
from posydon.binary_evol.SN.step_SN import StepSN

ck = vk.Check("C13", "progenitors dense around every prescription boundary x "
              "all mechanisms/engines x ECSN x PISN x envelope and neutrino "
              "options, collapsed by the real supernova step; an independent "
              "re-statement of each published prescription is the oracle; "
              "non-trivial by (mechanism, engine, ECSN, PISN, outcome, type)")


def knn(name, x, m, k=5):
    X, M, V = TABS[name]
    xx, mm = np.meshgrid(X, M, indexing="ij")
    d = np.hypot(xx - x, mm - m).ravel()
    i = np.argsort(d, kind="stable")[:k]
    if d[i[0]] == 0:
        return V.ravel()[i[0]]
    w = 1 / d[i]
    return float((V.ravel()[i] * w).sum() / w.sum())


def ref_type(cfg, co, he):
    if cfg["ECSN"] == "Tauris+15":
        return "WD" if co < 1.37 else "ECSN" if co <= 1.43 else "CCSN"
    if cfg["ECSN"] == "Podsiadlowski+04":
        return "WD" if he < 1.4 else "ECSN" if he <= 2.5 else "CCSN"
    return "WD" if co < 1.37 else "CCSN"


def ref_rembar(cfg, p, m, he, co, pisn):
    """(baryonic remnant mass, fallback, state or None, SN type)."""
    typ = ref_type(cfg, co, he)
    if typ == "WD":
        return (co if co > 0 else he if he > 0 else m), 1.0, "WD", "WD"
    mc = m if cfg["conserve_hydrogen_envelope"] else he
    state = None
    mech = cfg["mechanism"]
    if mech == "direct":
        mr, fb = mc, 1.0
    elif typ == "ECSN":
        mr = 1.38 if cfg["ECSN"] == "Podsiadlowski+04" else co
        fb = 0.0
        if not mech.startswith("Fryer"):
            state = "NS"
    elif mech == "Fryer+12-rapid":
        mp = 1.1
        if co < 2.5:
            mf = 0.2
        elif co < 6:
            mf = 0.286 * co - 0.514
        elif co < 7 or co >= 11:
            mf = mc - mp
        else:
            a = 0.25 - 1.275 / (mc - mp)
            mf = (a * co + 1 - 11 * a) * (mc - mp)
        fb = mf / (mc - mp)
        mr = mp + mf
    elif mech == "Fryer+12-delayed":
        mp = 1.2 if co < 3.5 else 1.3 if co < 6 else 1.4 if co < 11 else 1.6
        if co < 2.5:
            mf = 0.2
        elif co < 3.5:
            mf = 0.5 * co - 1.05
        elif co < 11:
            a = 0.133 - 0.093 / (mc - mp)
            mf = (a * co + 1 - 11 * a) * (mc - mp)
        else:
            mf = mc - mp
        fb = mf / (mc - mp)
        mr = mp + mf
    elif mech == "Sukhbold+16-engine":
        h, st, f, rem = SUKH[cfg["engine"]]
        use = (st == 13) | ((st == 14) & (f == 0))
        h, st, rem = h[use], st[use], rem[use]
        near = np.argmin(abs(h - he))
        if st[near] == 13:
            mr = float(np.interp(he, h[st == 13], rem[st == 13]))
            fb, state = 0.0, "NS"
        else:
            hb, rb = h[st == 14], rem[st == 14]
            mr = float(mc if mc > hb.max() else np.interp(mc, hb, rb))
            fb, state = 1.0, "BH"
    elif mech == "Couch+20-engine":
        h, e = COUCH[cfg["engine"]]
        if e[np.argmin(abs(h - he))] == 0:
            mr, fb, state = mc, 1.0, "BH"
        else:
            mr, fb, state = 1.4, 0.0, "NS"
    else:
        if cfg["approx_at_he_depletion"]:
            cm = co
            x = 0.2 / co + 0.15 if "H-rich" in p["state"] \
                else -0.084 * np.log(co) + 0.4
        else:
            cm, x = p["co_he"], p["c_he"]
        M4, mu4 = knn("M4", x, cm), knn("mu4", x, cm)
        if cm <= 2.5:
            mr, fb, state = 1.25, 0.0, "NS"
        elif cm >= 10:
            mr, fb, state = mc, 1.0, "BH"
        elif mech == "Patton&Sukhbold20-engine":
            k1, k2 = ENG_P[cfg["engine"]]
            if k1 * mu4 * M4 + k2 < mu4:
                mr, fb, state = mc, 1.0, "BH"
            else:
                mr, fb, state = M4, 0.0, "NS"
        else:                                         # Maltsev+25, M16
            Xi, sc = knn("Xi", x, cm), knn("sc", x, cm)
            mm = mu4 * M4
            fail = Xi > 0.544 or sc > 1.169
            good = Xi < 0.314 or sc < 0.988
            if fail == good:
                good = (mm < 0.247 if not 0.247 <= mm <= 0.421
                        else not 0.005 + 0.420 * mm - mu4 > 0)
            if not good:
                mr, fb, state = mc, 1.0, "BH"
            elif Xi <= .04 or (Xi < 1.75 * mm - .044 and Xi <= .4) \
                    or M4 / cm > .6:
                mr, fb, state = M4, 0.0, "NS"
            else:
                mr, fb, state = (M4, mc), (0.0, 0.99), ("NS", "BH")
    return mr, fb, state, typ


def ref_pisn(cfg, p, m, he, co):
    pi = cfg["PISN"]
    cons = cfg["conserve_hydrogen_envelope"]
    if pi is None:
        return None
    if pi == "Marchant+19":
        if 31.99 <= he <= 61.10:
            return np.polynomial.polynomial.polyval(he, [
                -6.29429263e5, 1.15957797e5, -9.28332577e3, 4.21856189e2,
                -1.19019565e1, 2.13499267e-1, -2.37814255e-3, 1.50408118e-5,
                -4.13587235e-8])
        if 61.10 < he < 124.12:
            return np.nan
        return m if cons else he
    if pi == "Hendriks+23":
        sh, ex = cfg["PISN_CO_shift"] or 0.0, cfg["PPI_extra_mass_loss"] or 0.
        d = 0.0
        if 38 + sh <= co <= 114 + sh:
            y = co - sh - 34.8
            d = ((0.0006 * np.log10(max(p["Z"], 1e-4) * phys.ZSUN) + 0.0054)
                 * y**3 - 0.0013 * y**2 + ex)
        if d <= 0:
            return m if cons else he
        mp = (m if cfg["conserve_hydrogen_PPI"] else he) - d
        if mp < 0:
            return np.nan
        r = ref_rembar(cfg, p, mp, min(he, mp), min(co, mp), None)[0]
        if isinstance(r, tuple):
            return "ambiguous"
        r = min(r, mp)
        return np.nan if r < 10 else r
    return pi if he > pi else None


def gen(rng, cfg):
    """Progenitor dense around the boundaries."""
    b_co = [1.37, 1.43, 2.5, 3.5, 6.0, 7.0, 10.0, 11.0, 38.0, 114.0]
    b_he = [1.4, 2.5, 31.99, 61.10, 124.12]
    k = rng.integers(0, 10)
    if k < 3:
        co = float(rng.choice(b_co))
        r = rng.integers(0, 3)
        co = co if r == 0 else co * (1 + rng.choice([-1, 1])
                                     * 10.0**rng.uniform(-9, -2))
        he = co * float(rng.uniform(1.0, 1.35)) + float(rng.uniform(0, .3))
    elif k < 5:
        he = float(rng.choice(b_he))
        r = rng.integers(0, 3)
        he = he if r == 0 else he * (1 + rng.choice([-1, 1])
                                     * 10.0**rng.uniform(-9, -2))
        co = he * float(rng.uniform(.6, .98))
    elif k < 7:
        co = float(10**rng.uniform(np.log10(1.2), np.log10(20)))
        he = co * float(rng.uniform(1.05, 1.4)) + .05
    elif k < 9:
        co = float(rng.uniform(28, 130))
        he = co * float(rng.uniform(1.02, 1.25))
    else:
        co = float(rng.uniform(0.0, 1.36))
        he = co + float(rng.uniform(0.01, .5))
    stripped = rng.random() < .5
    m = he if stripped else he * float(rng.uniform(1.0, 2.0)) + .1
    if "conserve" in cfg and m - 0 < 1.7:
        m = max(m, 1.7)
    return m, float(he), float(co), stripped


MECHS = ([("Fryer+12-rapid", ""), ("Fryer+12-delayed", ""), ("direct", "")]
         + [("Sukhbold+16-engine", e) for e in ENG_S]
         + [("Patton&Sukhbold20-engine", e) for e in ENG_P]
         + [("Couch+20-engine", e) for e in ENG_C]
         + [("Maltsev+25-engine", "M16")])


def gen_cfg(rng, i):
    # half of the runs on the widely used analytic prescriptions
    mech, eng = MECHS[i % 3] if i % 2 else MECHS[(i // 2) % len(MECHS)]
    if i % 12 == 4:
        mech, eng = "Maltsev+25-engine", "M16"
    pisn = [None, "Marchant+19", "Hendriks+23", 45.0][rng.integers(0, 4)]
    return dict(mechanism=mech, engine=eng, PISN=pisn,
                PISN_CO_shift=[0.0, 0.0, -5.0, 3.0, None][rng.integers(0, 5)],
                PPI_extra_mass_loss=[0., -20., 10., None][rng.integers(0, 4)],
                ECSN=["Tauris+15", "Podsiadlowski+04", None][
                    rng.integers(0, 3)],
                conserve_hydrogen_envelope=bool(rng.integers(0, 2)),
                conserve_hydrogen_PPI=bool(rng.integers(0, 2)),
                max_neutrino_mass_loss=[0.0, .1, .5, 1., None][
                    rng.integers(0, 5)],
                max_NS_mass=float([2.5, 2.0, 3.0][rng.integers(0, 3)]),
                approx_at_he_depletion=bool(rng.integers(0, 2)),
                use_interp_values=False, use_profiles=False,
                use_core_masses=True, allow_spin_None=False)


@ck.family("collapse", quick=3000, thorough=40000)
def collapse(rng, c):
    cfg = gen_cfg(rng, c.index)
    if rng.random() < .15:
        cfg["use_core_masses"], cfg["allow_spin_None"] = False, True
    key = json.dumps({k: cfg[k] for k in cfg}, sort_keys=True)
    st = StepSN(**cfg, RNG=np.random.default_rng(int(rng.integers(1, 10**9))))
    for _ in range(3):
        m, he, co, stripped = gen(rng, cfg)
        state = ("stripped_He_Core_C_depleted" if stripped
                 else "H-rich_Core_C_depleted")
        Z = float(rng.choice([1e-4, 1e-3, 1e-2, .1, .2, .45, 1., 2.]))
        J = float(rng.uniform(47, 53))
        he4 = float(rng.choice([0.0, 0.5]))
        p = dict(state=state, Z=Z, co_he=float(rng.uniform(2.3, 10.5)),
                 c_he=float(rng.uniform(.1, .45)))
        if rng.random() < .2:
            p["co_he"] = float(rng.choice([2.5, 10.0]))
        s = sn.star(state=state, mass=m, he=he, co=co, J=J, Z=Z,
                    center_he4=he4)
        s.co_core_mass_at_He_depletion = p["co_he"]
        s.avg_c_in_c_core_at_He_depletion = p["c_he"]
        mpi = ref_pisn(cfg, p, m, he, co)
        if isinstance(mpi, str):
            c.count("random outcome skipped")
            continue
        mr, fb, want_state, typ = ref_rembar(cfg, p, m, he, co, mpi)
        c.note(cfg=cfg, m=m, he=he, co=co, p=p)
        with vk.quiet():
            err = st.collapse_star(s)
        c.expect(err is None, "collapse gives a remnant", err=err)
        if isinstance(mr, tuple):        # 15% fallback, by a draw
            isbh = abs(s.f_fb - .99) < 1e-12
            j = int(isbh)
            c.expect(isbh or s.f_fb == 0, "fallback fraction 0 or 0.99",
                     key="fallback", f_fb=s.f_fb)
            mr, fb, want_state = mr[j], fb[j], want_state[j]
        if typ == "WD":
            c.expect((s.state, s.SN_type) == ("WD", "WD"),
                     "low-mass core leaves a white dwarf", state=s.state)
            c.close(s.mass, mr, "white-dwarf mass", 1e-12)
            c.close(s.he_core_mass, mr, "white-dwarf He core mass", 1e-12)
            c.close(s.co_core_mass, mr if he4 < .01 else 0.,
                    "white-dwarf CO core mass", 1e-12)
            c.expect(s.spin == 0, "white dwarfs start without spin",
                     spin=s.spin)
            c.expect(s.f_fb == 1.0, "no ejecta fall on a white dwarf: "
                     "everything is kept, no kick", f_fb=s.f_fb)
            c.expect(s.center_he4 == he4 and s.log_total_angular_momentum
                     is None and s.profile is None,
                     "of the structure only the composition is kept (WD)")
            c.seen(cfg["mechanism"], cfg["ECSN"], "WD")
            continue
        if mpi is not None:
            if np.isnan(mpi):
                typ, mr = "PISN", np.nan
            elif mr > mpi:
                typ, mr = "PPISN", mpi
        c.expect(s.SN_type == typ, "type of the supernova", got=s.SN_type,
                 want=typ)
        c.close(s.f_fb, fb, "fallback fraction", 1e-9, 1e-12, key="fallback")
        if np.isnan(mr):
            c.expect(s.state == "massless_remnant" and s.mass == 0,
                     "pair-instability supernova leaves no remnant",
                     state=s.state, mass=s.mass)
            c.seen(cfg["mechanism"], cfg["PISN"], "PISN")
            continue
        loss = mr - 20. / 3 * (np.sqrt(1 + .3 * mr) - 1)
        mg = mr - min(loss, cfg["max_neutrino_mass_loss"] or 0.0)
        c.close(s.mass, mg, "gravitational remnant mass", 3e-8, key="mass")
        want = "BH" if mg >= cfg["max_NS_mass"] else "NS"
        if abs(mg - cfg["max_NS_mass"]) > 1e-9:
            c.expect(s.state == want, "neutron star / black hole by mass",
                     got=s.state, want=want, m=mg)
        if cfg["use_core_masses"] and s.state == "BH":
            spin = min(1.0, 10**J * phys.C / (phys.G * (mg * phys.MSUN)**2))
            c.close(s.spin, spin, "black-hole spin from the angular momentum",
                    1e-6)
        elif cfg["use_core_masses"]:
            c.expect(s.spin == 0, "neutron stars start without spin")
        else:
            c.expect(s.spin is None, "spin left undefined on request")
        R = {"BH": 2 * phys.G * s.mass * phys.MSUN / phys.C**2,
             "NS": 12.5e5}[s.state] / phys.RSUN
        c.close(s.log_R, np.log10(R), "radius of the remnant", 1e-5)
        c.expect((s.m_disk_accreted, s.m_disk_radiated) == (0, 0),
                 "no disk without a profile", got=(s.m_disk_accreted,
                                                   s.m_disk_radiated))
        c.expect(np.isnan(s.h1_mass_ej) and np.isnan(s.he4_mass_ej),
                 "ejecta unknown without a profile")
        c.expect(s.metallicity == Z, "metallicity kept")
        c.expect(s.he_core_mass is None and s.profile is None
                 and s.center_h1 is None, "progenitor structure removed")
        c.seen(cfg["mechanism"], cfg["engine"], cfg["ECSN"],
               str(cfg["PISN"]), typ, s.state, "cons" if
               cfg["conserve_hydrogen_envelope"] else "strip")


@ck.family("he_depletion_lookup", quick=100, thorough=1000)
def depl(rng, c):
    """Patton/Maltsev use the core at helium depletion of the history."""
    cfg = gen_cfg(rng, 0)
    cfg.update(mechanism="Patton&Sukhbold20-engine",
               engine=str(rng.choice(list(ENG_P))), PISN=None,
               ECSN="Tauris+15", approx_at_he_depletion=False)
    st = StepSN(**cfg)
    pre = str(rng.choice(["H-rich", "stripped_He"]))
    seq = [pre + "_Core_H_burning"] * 2 + [pre + "_Core_He_burning"] * 2 \
        + [pre + "_Core_He_depleted"] * int(rng.integers(1, 4)) \
        + [pre + "_Core_C_depleted"]
    n = len(seq)
    cos = np.sort(rng.uniform(2.6, 9.9, n))
    cab = rng.uniform(.1, .45, n)
    m = float(rng.uniform(14, 30))
    s = sn.star(state=seq[0], mass=m, he=13., co=float(cos[0]),
                avg_c_in_c_core=float(cab[0]))
    for k in range(1, n):
        s.append_state() if k > 1 else None
        s.state, s.co_core_mass, s.avg_c_in_c_core = (
            seq[k], float(cos[k]), float(cab[k]))
    s.append_state()
    i = s.state_history.index(pre + "_Core_He_depleted")
    half = int(rng.integers(0, 4))        # known before, or only one of both
    if half & 1:
        s.avg_c_in_c_core_at_He_depletion = s.avg_c_in_c_core_history[i]
    if half & 2:
        s.co_core_mass_at_He_depletion = s.co_core_mass_history[i]
    p = dict(state=s.state, Z=1., co_he=s.co_core_mass_history[i],
             c_he=s.avg_c_in_c_core_history[i])
    co = s.co_core_mass
    mr, fb, state, typ = ref_rembar(cfg, p, m, 13., co, None)
    with vk.quiet():
        st.collapse_star(s)
    loss = mr - 20. / 3 * (np.sqrt(1 + .3 * mr) - 1)
    mg = mr - min(loss, cfg["max_neutrino_mass_loss"] or 0.0)
    c.note(seq=seq, cos=cos, cab=cab, cfg=cfg)
    c.close(s.mass, mg, "remnant from the core at helium depletion", 1e-9)
    c.seen(pre, s.state, n, half)


@ck.family("interpolated", quick=400, thorough=4000)
def interp(rng, c):
    """Pre-computed collapse properties of the grids are used when they are
    consistent with the star, otherwise the core masses decide."""
    from posydon.grids.SN_MODELS import DEFAULT_SN_MODEL
    cfg = dict(DEFAULT_SN_MODEL)
    cfg.update(use_profiles=False)
    st = StepSN(**cfg)
    m, he, co, stripped = gen(rng, cfg)
    state = ("stripped_He_Core_C_depleted" if stripped
             else "H-rich_Core_C_depleted")
    real = ref_type(cfg, co, he)
    pst = str(rng.choice(["WD", "NS", "BH", "massless_remnant"]))
    pty = str(rng.choice(["WD", "ECSN", "CCSN", "PPISN", "PISN"]))
    if rng.random() < .5:
        pty = real
        pst = {"WD": "WD", "ECSN": "NS"}.get(
            real, str(rng.choice(["NS", "BH"])))
    pm = float(rng.uniform(1, 2)) if pst != "BH" else float(
        rng.uniform(3, 30))
    if pst == "massless_remnant":
        pm = 0.0
    if rng.random() < .1:
        pm = np.nan
    props = dict(state=pst, SN_type=pty, f_fb=.3, mass=pm, spin=.4,
                 m_disk_accreted=.2, m_disk_radiated=.1, M4=1.5, mu4=.1,
                 h1_mass_ej=.1, he4_mass_ej=.2)
    s = sn.star(state=state, mass=m, he=he, co=co)
    setattr(s, "SN_MODEL_v2_01", dict(props))
    mpi = ref_pisn(cfg, dict(Z=1., state=state), m, he, co)
    mr, fb, _, typ = ref_rembar(cfg, dict(state=state), m, he, co, mpi)
    c.note(m=m, he=he, co=co, props=props, real=real)
    with vk.quiet():
        err = st.collapse_star(s)
    eff = real if pty == "ECSN" else pty
    ok = {"WD": ("WD",), "NS": ("ECSN", "CCSN"), "BH": ("CCSN", "PPISN"),
          "massless_remnant": ("PISN",)}[pst]
    use = (real != "ECSN" and eff == real and eff in ok and not np.isnan(pm))
    c.expect(err is None, "collapse gives a remnant", err=err)
    if use:
        c.expect((s.state, s.mass, s.spin) == (pst, pm, .4),
                 "consistent pre-computed remnant is used", got=(s.state,
                                                               s.mass,
                                                               s.spin))
        if pst != "massless_remnant":
            c.expect((s.m_disk_accreted, s.m_disk_radiated, s.f_fb, s.M4,
                      s.mu4, s.h1_mass_ej, s.he4_mass_ej, s.SN_type)
                     == (.2, .1, .3, 1.5, .1, .1, .2, eff),
                     "pre-computed properties are used")
            R = {"BH": 2 * phys.G * pm * phys.MSUN / phys.C**2,
                 "NS": 12.5e5, "WD": 2.9e8 * pm**(-1 / 3)}[pst] / phys.RSUN
            c.close(s.log_R, np.log10(R), "radius of the pre-computed "
                    "remnant", 1e-5)
            core = (pm, pm)                # no helium in the centre
            c.expect((s.he_core_mass, s.co_core_mass)
                     == (core if pst == "WD" else (None, None)),
                     "core masses of the pre-computed remnant",
                     got=(s.he_core_mass, s.co_core_mass))
        c.seen("used", pst, pty)
        return
    if typ == "WD":
        c.close(s.mass, mr, "inconsistent pre-computed remnant ignored (WD)",
                1e-9)
        c.expect(s.state == "WD", "white dwarf")
    else:
        if mpi is not None and (np.isnan(mpi) or mr > mpi):
            mr = mpi
        if np.isnan(mr):
            c.expect(s.state == "massless_remnant", "PISN leaves nothing",
                     state=s.state)
        else:
            loss = mr - 20. / 3 * (np.sqrt(1 + .3 * mr) - 1)
            mg = mr - min(loss, cfg["max_neutrino_mass_loss"] or 0.0)
            c.close(s.mass, mg, "inconsistent pre-computed remnant ignored",
                    1e-9)
    c.seen("ignored", pst, pty, real)


@ck.family("small", quick=150, thorough=1500)
def small(rng, c):
    """Stars without a carbon-oxygen or without any core."""
    cfg = gen_cfg(rng, c.index)
    kind = c.index % 3
    if kind and cfg["PISN"] == 45.0:      # needs a helium core
        cfg["PISN"] = None
    st = StepSN(**cfg)
    he = float(rng.uniform(.2, 1.3)) if kind == 0 else 0.0
    m = he + float(rng.uniform(0, .3)) if kind == 0 else float(
        rng.uniform(.1, .4999) if kind == 1 else rng.choice([.5, .7, 3.]))
    he4 = float(rng.choice([0., .9]))
    s = sn.star(state="H-rich_Core_C_depleted", mass=m, he=he, co=0.,
                J=50., Z=1., center_he4=he4)
    c.note(cfg=cfg, m=m, he=he)
    if kind == 2:
        c.raises(Exception, lambda: st.collapse_star(s),
                 "a massive star without core is refused")
        c.seen("refused")
        return
    with vk.quiet():
        err = st.collapse_star(s)
    c.expect(err is None and (s.state, s.SN_type, s.f_fb, s.spin)
             == ("WD", "WD", 1.0, 0.0), "white dwarf", state=s.state)
    want = he if kind == 0 else m
    c.close(s.mass, want, "white-dwarf mass without CO core", 1e-12)
    c.close(s.he_core_mass, want, "white-dwarf He core", 1e-12)
    c.close(s.co_core_mass, want if he4 < .01 else 0., "white-dwarf CO core",
            1e-12)
    c.seen(kind, cfg["ECSN"], cfg["mechanism"])


@ck.family("fallback_draw", quick=4, thorough=20)
def draw(rng, c):
    """The fallback black holes of Maltsev+25 are 15% of the ambiguous
    explosions."""
    cfg = gen_cfg(rng, 0)
    cfg.update(mechanism="Maltsev+25-engine", engine="M16", PISN=None,
               ECSN="Tauris+15", approx_at_he_depletion=False,
               use_core_masses=True, allow_spin_None=False)
    st = StepSN(**cfg, RNG=np.random.default_rng(int(rng.integers(1, 10**9))))
    while True:
        p = dict(state="H-rich_Core_C_depleted", Z=1.,
                 co_he=float(rng.uniform(2.6, 9.9)),
                 c_he=float(rng.uniform(.1, .45)))
        mr = ref_rembar(cfg, p, 25., 12., 9., None)[0]
        if isinstance(mr, tuple):
            break
    n, k = 600, 0
    for _ in range(n):
        s = sn.star(state=p["state"], mass=25., he=12., co=9., J=50., Z=1.)
        s.co_core_mass_at_He_depletion = p["co_he"]
        s.avg_c_in_c_core_at_He_depletion = p["c_he"]
        with vk.quiet():
            st.collapse_star(s)
        k += s.f_fb > .5
    from scipy.stats import binom
    pv = min(binom.cdf(k, n, .15), binom.sf(k - 1, n, .15))
    c.expect(pv > 1e-9, "15% of the ambiguous explosions fall back", k=k,
             n=n)
    c.seen("drawn", c.index)


ck.require("cases:collapse", 500)
sys.exit(ck.main())
