"""jobs on the timetable data functions (run by worker.py)"""
import copy
import math

import numpy as np
import pandas as pd

import data_formatting.data_formatting as df

COLS = ["path", "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes"]
TIMES = ["time_inter_city_A-B", "time_regional_train_A-B", "time_inter_city_B-A", "time_regional_train_B-A"]


def nan(x):
    return np.nan if x is None else x


def frame(rows, updated=True):
    cols = COLS + (["passing_time", "important_station"] if updated else [])
    d = {}
    for c in cols:
        v = [nan(r.get(c)) for r in rows]
        d[c] = pd.Series(v, dtype=float if c in ("Turnaround_time_minutes", "passing_time") else object)
    return pd.DataFrame(d, columns=cols)


def network(rows):
    d = {"previous_block": [r[0] for r in rows], "next_block": [r[1] for r in rows],
         "direction": ["x"] * len(rows), "default_A-B": ["Y"] * len(rows), "default_B-A": ["N"] * len(rows),
         "switches": [nan(r[2]) for r in rows]}
    for i, c in enumerate(TIMES):
        d[c] = [r[3][i] for r in rows]
    return pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in d.items()})


def trains(p, updated=True):
    return {t: [list(info), frame(rows, updated)] for t, info, rows in p["trains"]}


def cells(f):
    """content of a frame, column by column"""
    out = {}
    for c in f.columns:
        v = f[c].tolist()
        out[c] = [None if isinstance(x, float) and math.isnan(x) else x for x in v]
    return out


def state(d):
    return {t: [list(v[0]), cells(v[1]), list(v[1].index)] for t, v in d.items()}


def kept(p, f, updated=True):
    """run f on the trains; result and whether the inputs were left alone"""
    d, st = trains(p, updated), copy.deepcopy(p["stations"])
    before = state(d)
    r = f(d, st)
    return {"r": r, "kept": before == state(d) and st == p["stations"]}


PARTS = ("get_initial_conditions", "make_weights", "get_schedule", "make_taus", "get_taus_pass", "get_taus_headway", "get_taus_prep",
         "get_taus_stop", "jd", "josingle", "get_jround", "jtrack", "jswitch")


def assemble(fun, keep_parts, *args):
    """run a function of helpers.py that puts parts together, with only the given parts real"""
    import helpers
    saved = {n: getattr(helpers, n) for n in PARTS if hasattr(helpers, n) and n not in keep_parts and n != fun}
    try:
        for n in saved:
            setattr(helpers, n, (lambda *a, **k: ({}, {})) if n == "get_taus_stop" else (lambda *a, **k: {}))
        return getattr(helpers, fun)(*args)
    finally:
        for n, f in saved.items():
            setattr(helpers, n, f)


def add_delay(p):
    from data_formatting.data_formatting import scheduling_tools, utils
    out = []
    for m in (df, scheduling_tools, utils):
        if hasattr(m, "add_delay"):
            d = dict(p["cond"])
            r = m.add_delay(d, p["train"], p["delay"])
            out.append((dict(r), d == p["cond"], r is d))
    return out


def schedule(p):
    from data_formatting.data_formatting import scheduling_tools, utils
    out = []
    for m in (df, scheduling_tools, utils):
        for n in ("get_schedule", "get_initial_conditions"):
            if hasattr(m, n):
                out.append((n, kept(p, lambda d, st: getattr(m, n)(d, p["t1"]))))
    for n, k in (("get_schedule", "schedule"), ("get_initial_conditions", "initial_conditions")):
        out.append((n, kept(p, lambda d, st: assemble("make_timetable", [n], d, st, p["skip"], p["t1"], {"x": 1}).get(k, {}))))
    return out


def update(p):
    d = trains(p, updated=False)
    net = network(p["net"])
    n0 = cells(net)
    try:
        r = df.update_all_timetables(d, net, copy.deepcopy(p["stations"]))
    except AssertionError as e:
        return {"rejected": "assert"}
    except SystemExit as e:
        return {"rejected": "exit"}
    return {"r": state(r), "same": r is d, "net": cells(net) == n0,
            "single": [[df.single_passing_time([a, b, s], net) for a, b, s in zip(f["path"].tolist(), f["path"].tolist()[1:], f["speed"].tolist())]
                       for _, f in r.values()]}


def routes(p):
    from data_formatting.data_formatting import utils, time_table_check

    def f(d, st):
        out = {"paths": df.get_Paths(d), "J": df.get_J(d), "at": utils.get_trains_at_station(d, st), "from": utils.get_trains_at_station(d, st, True)}
        out["helpers"] = None
        per = {}
        for t in d:
            tt = d[t][1]
            q = {"stations": time_table_check.train_important_stations(tt)}
            q["next"] = {s: utils.subsequent_station(tt, s) for s in p["ask"]}
            q["thru"] = {s: utils.is_train_passing_thru_station(tt, s) for s in p["ask"]}
            q["used"] = {s: utils.blocks_list_4station(tt, s, st) for s in p["ask"] if s in st}
            q["between"] = {(a, b): utils.get_blocks_b2win_station4train(tt, a, b, verbose=False) for a in p["ask"] for b in p["ask"] if a != b}
            bl = tt["path"].tolist()
            q["nextblock"] = [utils.subsequent_block(bl, b) for b in bl]
            per[t] = q
        out["per"] = per
        ts = list(d)
        out["common"] = {(a, b): sorted(utils.check_common_station(d, a, b)) for a in ts for b in ts}
        if hasattr(utils, "check_common_blocks_elements"):
            out["blocks"] = {(a, b): sorted(utils.check_common_blocks_elements(d, a, b)) for a in ts for b in ts}
        if hasattr(utils, "get_trains_with_same_stations"):
            out["same"] = {s: list(x) for s, x in utils.get_trains_with_same_stations(d).items()}
        return out
    return kept(p, f)


def taus(p):
    a = kept(p, lambda d, st: df.get_taus_pass(d, r=p["r"]))
    b = kept(p, lambda d, st: df.get_taus_stop(d, st, r=p["r"]))
    c = kept(p, lambda d, st: df.get_taus_prep(d, st, r=p["r"]))
    m = kept(p, lambda d, st: assemble("make_taus", ["get_taus_pass", "get_taus_prep", "get_taus_stop"], d, st, p["r"]))
    sel = p["sel"]
    e = kept(p, lambda d, st: df.get_taus_pass(d, sel, r=p["r"]))
    g = kept(p, lambda d, st: df.get_taus_stop(d, st, sel, r=p["r"]))
    parts = ["make_taus", "get_taus_pass", "get_taus_prep", "get_taus_stop"]
    tt = kept(p, lambda d, st: assemble("make_timetable", parts, d, st, {}).get("tau", {}))
    own = {"pass": {"x": 1}}
    ow = kept(p, lambda d, st: assemble("make_timetable", parts, d, st, {}, "16:00", own).get("tau", {}))
    return {"pass": a, "stop": b, "prep": c, "make": m, "pass_sel": e, "stop_sel": g, "timetable": tt, "own": ow}


def headway(p):
    return [kept(p, lambda d, st: df.get_taus_headway(d, st, r=p["r"])),
            kept(p, lambda d, st: assemble("make_taus", ["get_taus_headway"], d, st, p["r"]).get("headway", {}))]


def _set(p, f, key, part):
    net = network(p["net"])
    out = [kept(p, lambda d, st: f(d, st, net))]
    if p["sel"] is None:
        out.append(kept(p, lambda d, st: assemble("make_train_set", [part], d, st, net, p["skip"]).get(key, {})))
    return out


def jd(p):
    return _set(p, lambda d, st, net: df.jd(d, st, p["sel"]), "Jd", "jd")


def josingle(p):
    return _set(p, lambda d, st, net: df.josingle(d, st, p["sel"]), "Josingle", "josingle")


def jtrack(p):
    return _set(p, lambda d, st, net: df.jtrack(d, st, p["sel"]), "Jtrack", "jtrack")


def jswitch(p):
    return _set(p, lambda d, st, net: df.jswitch(d, st, net, p["sel"]), "Jswitch", "jswitch")


def jround(p):
    net = network(p["net"])
    out = {"pairs": kept(p, lambda d, st: df.get_trains_pair9(d)), "round": [kept(p, lambda d, st: df.get_jround(d, st))]}
    out["round"].append(kept(p, lambda d, st: assemble("make_train_set", ["get_jround"], d, st, net, p["skip"]).get("Jround", {})))
    return out


def weights(p):
    w = p["weights"]
    return {"w": kept(p, lambda d, st: df.make_weights(d, dict(p["skip"]), **w)),
            "skip": kept(p, lambda d, st: df.get_skip_stations(d)),
            "make": kept(p, lambda d, st: assemble("make_timetable", ["make_weights"], d, st, dict(p["skip"]), "16:00", {}).get("penalty_weights", {}))}


def parse(p):
    cols = ["Unnamed: 0"] + COLS[1:]
    data = pd.DataFrame({c: pd.Series([nan(r[i]) for r in p["lines"]], dtype=float if c == COLS[-1] else object) for i, c in enumerate(cols)})
    before = cells(data)
    d = df.timetable_to_train_dict(data)
    return {"r": state(d), "kept": before == cells(data)}


def continuity(p):
    net = network(p["net"]).iloc[:, :2]
    out = []
    for path in p["paths"]:
        for form in (path, pd.Series(path, dtype=object)):
            try:
                df.check_path_continuity(form, net)
                out.append("ok")
            except AssertionError:
                out.append("assert")
    return out


def table(p):
    import datetime
    import helpers as h
    import railway_solvers.railway_solvers as rs
    prob = rs.create_linear_problem(p["train_sets"], p["timetable"], p["d_max"], p["cat"])
    vals = {}
    for n, v in enumerate(prob.variables()):
        v.varValue = vals[v.name] = p["values"][n % len(p["values"])]
    t0 = datetime.datetime(2022, 5, 1, 14, 30)
    ts, tt = copy.deepcopy(p["train_sets"]), copy.deepcopy(p["timetable"])

    def mins(t):
        return {s: {k: ((v - t0).total_seconds() / 60 if isinstance(v, datetime.datetime) else v) for k, v in e.items()} for s, e in t.items()}
    r = h.print_optimisation_results(prob, tt, ts, tt["tau"], p["skip"], p["d_max"], t0)
    data = {n: v + 1 for n, v in vals.items()}
    r2 = h.print_optimisation_results(prob, tt, ts, tt["tau"], p["skip"], p["d_max"], t0, data)
    return {"vals": vals, "data": data, "r": {j: mins(t) for j, t in r.items()}, "r2": {j: mins(t) for j, t in r2.items()},
            "order": {j: list(t) for j, t in r.items()}, "kept": ts == p["train_sets"] and tt == p["timetable"]}
