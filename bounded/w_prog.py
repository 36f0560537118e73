"""integer programs from their description"""
import pulp


def build(p):
    prob = pulp.LpProblem("p", pulp.LpMinimize)
    v = {n: pulp.LpVariable(n, lo, up, cat) for n, lo, up, cat in p["vars"]}
    for name, sense, const, co in p["cons"]:
        e = pulp.LpAffineExpression([(v[n], c) for n, c in co], const)
        prob += pulp.LpConstraint(e, sense), name
    if p["obj"] is not None:
        const, co = p["obj"]
        prob += pulp.LpAffineExpression([(v[n], c) for n, c in co], const)
    return prob
