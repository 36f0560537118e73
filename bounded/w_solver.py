"""jobs on the linear model (run by worker.py)"""
import railway_solvers as rs


def dump_lp(prob):
    vs = {}
    for v in prob.variables():
        vs.setdefault(v.name, []).append((v.lowBound, v.upBound, v.cat))
    cons = [(n, c.sense, float(c.constant), {v.name: float(k) for v, k in c.items()}) for n, c in prob.constraints.items()]
    obj = prob.objective
    return {"vars": vs, "cons": cons, "sense": prob.sense,
            "obj": None if obj is None else (float(obj.constant), {v.name: float(k) for v, k in obj.items()})}


def lp(p):
    return dump_lp(rs.create_linear_problem(p["train_sets"], p["timetable"], p["d_max"], p["cat"]))


def earliest(p):
    return {k: rs.earliest_dep_time(p["S"], p["timetable"], *k) for k in p["ask"]}


def lpvars(p):
    import pulp
    out = {"lp": lp(p), "delay": None}
    if hasattr(rs, "delay_varibles"):
        dv = rs.delay_varibles(p["train_sets"], p["d_max"], p["cat"])
        acc = []
        for j, d in dv.items():
            for s, v in (d.items() if isinstance(d, dict) else ()):
                if isinstance(v, pulp.LpVariable):
                    acc.append(((j, s), v.lowBound, v.upBound, v.cat))
        out["delay"] = acc
    return out


def reports(p):
    prob = rs.create_linear_problem(p["train_sets"], p["timetable"], p["d_max"], p["cat"])
    vals = {}
    for n, v in enumerate(prob.variables()):
        v.varValue = vals[v.name] = p["values"][n % len(p["values"])]
    data = {n: v + 1 for n, v in vals.items()}
    rep, rep2 = {}, {}
    for j in p["train_sets"]["J"]:
        for s in p["train_sets"]["Paths"][j]:
            a = rs.delay_and_acctual_time(p["train_sets"], p["timetable"], prob, j, s)
            i = rs.impact_to_objective(prob, p["timetable"], j, s, p["d_max"])
            rep[(j, s)] = (tuple(a), i)
            a = rs.delay_and_acctual_time(p["train_sets"], p["timetable"], prob, j, s, data)
            i = rs.impact_to_objective(prob, p["timetable"], j, s, p["d_max"], data)
            rep2[(j, s)] = (tuple(a), i)
    return {"lp": dump_lp(prob), "vals": vals, "rep": rep, "data": data, "rep_data": rep2}
