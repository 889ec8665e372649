"""Scripted evolutions: random histories run through the real loop.

A script is a list of rows; row k says which total state and which values the
binary has after k steps.  The script index is kept in binary.time, so that
the steps are a function of the state of the binary alone."""
import numpy as np
from posydon.binary_evol.flow_chart import (STAR_STATES_ALL,
                                            BINARY_STATES_ALL,
                                            BINARY_EVENTS_ALL,
                                            UNDEFINED_STATES)
from posydon.binary_evol.binarystar import BinaryStar, BINARYPROPERTIES
from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
from posydon.binary_evol.simulationproperties import (SimulationProperties,
                                                      EvolveHooks)

STEPS = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_detached",
         "step_SN", "step_CE", "step_dco", "step_end", "step_mine",
         "step_other"]
BP = [p for p in BINARYPROPERTIES
      if p not in ("state", "event", "time", "V_sys",
                   "nearest_neighbour_distance", "mass_transfer_case")]
SP = [p for p in STARPROPERTIES
      if p not in ("state", "metallicity", "profile")]
_UND = set(UNDEFINED_STATES)


def num(rng):
    r = rng.uniform()
    return None if r < .05 else float("nan") if r < .1 else \
        float(rng.normal() * 10**rng.uniform(-3, 6))


class Script:
    def __init__(self, rng, n, last_event="END", redirects=True):
        """n steps, the last of which ends with last_event."""
        self.rng = rng
        self.rows = []
        # redirect events on purpose more frequent
        evs = list(BINARY_EVENTS_ALL)
        if not redirects:
            evs = [e for e in evs if not (e and "redirect" in e)]
        elif rng.uniform() < .5:
            evs += [e for e in evs if e and "redirect" in e] * 3
        for k in range(n + 1):
            while True:
                tot = (STAR_STATES_ALL[int(rng.integers(len(STAR_STATES_ALL)))],
                       STAR_STATES_ALL[int(rng.integers(len(STAR_STATES_ALL)))],
                       BINARY_STATES_ALL[int(rng.integers(
                           len(BINARY_STATES_ALL)))],
                       evs[int(rng.integers(len(evs)))])
                if tot in _UND:
                    continue
                break
            if k == 0:
                # the initial condition is always recorded
                tot = ("H-rich_Core_H_burning", "H-rich_Core_H_burning",
                       "detached", "ZAMS")
            if k == n and n > 0:
                tot = tot[:3] + (last_event,)
            self.rows.append(dict(
                tot=tot,
                b={p: num(rng) for p in BP}, s1={p: num(rng) for p in SP},
                s2={p: num(rng) for p in SP},
                V=[float(x) for x in rng.normal(size=3)],
                mt=["None", "case_A1", "contact_during_MS"][
                    int(rng.integers(3))]))
            for p in ("separation", "orbital_period"):
                v = self.rows[-1]["b"][p]
                if v is not None:
                    self.rows[-1]["b"][p] = abs(v)
            self.rows[-1]["s1"]["mass"] = float(rng.uniform(1, 50))
            self.rows[-1]["s2"]["mass"] = float(rng.uniform(1, 50))
        self.flow = {}
        for r in self.rows:
            if r["tot"] not in self.flow:
                self.flow[r["tot"]] = STEPS[int(rng.integers(len(STEPS)))]
        self.calls = []
        self.fault = None

    def apply(self, b, k):
        r = self.rows[k]
        b.star_1.state, b.star_2.state, b.state, b.event = r["tot"]
        b.time = float(k)
        for p, v in r["b"].items():
            setattr(b, p, v)
        for s, q in ((b.star_1, "s1"), (b.star_2, "s2")):
            for p, v in r[q].items():
                setattr(s, p, v)
        b.V_sys = list(r["V"])
        b.mass_transfer_case = r["mt"]

    def binary(self, props, index=None):
        r = self.rows[0]
        s = [SingleStar(state=r["tot"][i], metallicity=1.0, **r[q])
             for i, q in ((0, "s1"), (1, "s2"))]
        b = BinaryStar(*s, index=index, properties=props, state=r["tot"][2],
                       event=r["tot"][3], time=0.0, V_sys=list(r["V"]),
                       mass_transfer_case=r["mt"], **r["b"])
        return b

    def step(self, name):
        def f(b):
            k = int(b.time)
            self.calls.append((k, name, (b.star_1.state, b.star_2.state,
                                         b.state, b.event)))
            if self.fault and self.fault[0] == k:
                self.fault[1](b)
            self.apply(b, k + 1)
        return f

    def props(self, extra_hooks=(), missing=()):
        p = SimulationProperties(extra_hooks=list(extra_hooks))
        p.flow = dict(self.flow)
        p.max_simulation_time = 1.38e10
        for n in STEPS:
            if n not in missing:
                setattr(p, n, self.step(n))
        return p


def same(a, b):
    if a is None or b is None:
        return a is b
    try:
        x, y = np.asarray(a, float), np.asarray(b, float)
        return x.shape == y.shape and bool(np.all((x == y)
                                                  | (np.isnan(x)
                                                     & np.isnan(y))))
    except (TypeError, ValueError):
        return a == b


def snapshot(b):
    """Copy of the complete recorded history and the current values."""
    import copy
    d = {}
    for p in BINARYPROPERTIES:
        d["b." + p] = (list(getattr(b, p + "_history")), getattr(b, p))
    for q, s in (("1.", b.star_1), ("2.", b.star_2)):
        for p in STARPROPERTIES:
            d[q + p] = (list(getattr(s, p + "_history")), getattr(s, p))
    return copy.deepcopy(d)


def row_diff(b, script, recorded):
    """First difference between the histories and the script rows."""
    n = len(recorded)
    for who, obj, props_ in (("b", b, BINARYPROPERTIES),
                             ("s1", b.star_1, STARPROPERTIES),
                             ("s2", b.star_2, STARPROPERTIES)):
        for p in props_:
            h = getattr(obj, p + "_history")
            if len(h) != n:
                return (who, p, "length", len(h), n)
            for j, k in enumerate(recorded):
                r = script.rows[k]
                if who == "b":
                    want = {"state": r["tot"][2], "event": r["tot"][3],
                            "time": float(k), "V_sys": r["V"],
                            "mass_transfer_case": r["mt"],
                            "nearest_neighbour_distance": [0., 0., 0.]}
                    want.update(r["b"])
                else:
                    want = {"state": r["tot"][0 if who == "s1" else 1],
                            "metallicity": 1.0}
                    want.update(r[who])
                if p not in want:
                    continue
                if p in ("separation", "orbital_period") and j == 0:
                    continue                 # completed at construction
                if not same(h[j], want[p]):
                    return (who, p, j, h[j], want[p])
    return None
