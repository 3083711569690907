#!/usr/bin/env python3
"""Reduced (TNLPReducer) and bound-free (NLPBoundsRemover) problems, validated against Wrap.tla (C->S)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import copy
import _iterate
import e2e
from _adapter import *


def subset(rng, n, p):
    l = [k for k in range(n) if rng.random() < p]
    rng.shuffle(l)
    return l


def wrap_cfg(cs):
    r = cs.get("reduce", {})
    one = lambda k: [v + 1 for v in r.get(k, [])]
    return dict(adapter_cfg(cs), nb=bool(cs.get("nobounds")), dropg=one("g"), dropxl=one("xl"), dropxu=one("xu"), fix=one("fix"))


def wrap_case(rng, i, vt, ct, drops=None, nb=None, base=None):
    nb = rng.random() < .5 if nb is None else nb
    cs = adapter_case(rng, i, vt, ct, rng.choice(sorted(TREAT)))
    p = cs["prob"]
    if base is not None:
        p["base"] = base
    n, m = p["n"], p["m"]
    if drops is not None or rng.random() < .8:
        q = rng.choice([0., .3, .6])
        cs["reduce"] = drops or dict(g=subset(rng, m, rng.choice([0., .3, .6, 1.])), xl=subset(rng, n, q), xu=subset(rng, n, q), fix=subset(rng, n, rng.choice([0., 0., .3])))
    if nb:
        cs["nobounds"] = 1
        for k in range(m):   # mostly one-sided constraints
            if p["gl"][k] != p["gu"][k] and rng.random() < .9:
                lo = rng.random() < .5
                p["gl"][k], p["gu"][k] = (p["gl"][k] if abs(p["gl"][k]) < 1e10 else -1., INF) if lo else (-INF, p["gu"][k] if abs(p["gu"][k]) < 1e10 else 1.)
    return cs


def wrap(c, cases, flavor="asan"):
    exe = build(["adapter"], flavor=flavor)["adapter"]
    ans, crashes = run_parallel(exe, cases, timeout=300)
    for case, rc, err in crashes:
        c.violation("wrap/crash", "the wrapper died (%s)" % rc, dict(case=case, rc=rc, stderr=err))
    by = {cs["id"]: cs for cs in cases}
    tr = [dict(case=i, name="wrap/%d" % i, cfg=wrap_cfg(by[i]), ev=a["ev"]) for i, a in ans.items()]
    fails = [(t, i, cl.replace("C18.", "C25.").replace("C22.", "C25.")) for t, i, cl in check_traces(c, "Wrap", tr)]
    report(c, "Wrap", tr, fails, by)
    c.count("wrapped_problems", len(tr))
    c.count("bound_free_problems", sum(t["cfg"]["nb"] for t in tr))
    c.count("bound_free_problems_refused", sum(t["ev"][0].get("brej") == "invalid" for t in tr))
    c.sample(dict(wrap=tr[0]["cfg"], events=tr[0]["ev"][:2]))


MAX = 1.7976931348623157e308


def by_hand(cs):
    """the reduced problem, written down without the wrapper"""
    r = cs["runs"][0].pop("reduce")
    p = cs["probs"][0]
    keep = [k for k in range(p["m"]) if k not in r["g"]]
    for f in ("con", "gl", "gu", "lam0", "clin"):
        if f in p:
            p[f] = [p[f][k] for k in keep]
    if "g" in p.get("scal", {}):
        p["scal"]["g"] = [p["scal"]["g"][k] for k in keep]
    p["jac"] = [[keep.index(e[0])] + e[1:] for e in p["jac"] if e[0] in keep]
    p["m"] = len(keep)
    p["xl"] = [p["x0"][k] if k in r["fix"] else -MAX if k in r["xl"] else v for k, v in enumerate(p["xl"])]
    p["xu"] = [p["x0"][k] if k in r["fix"] else MAX if k in r["xu"] else v for k, v in enumerate(p["xu"])]
    return cs


def reduce_case(rng, i):
    g = e2e.warm_case if rng.random() < .3 else e2e.random_case
    cs = g(rng, i, pool=_iterate.P, query=0, fixed=.1, stop=.05, fault=0, kinds=[k for k in gen.KINDS if k != "log"])   # a dropped constraint is still evaluated, and must not fail
    p = cs["probs"][0]
    q = rng.choice([0., .2, .5])
    for r in cs["runs"][:1]:
        r["reduce"] = dict(g=subset(rng, p["m"], rng.choice([0., .3, .6])), xl=subset(rng, p["n"], q), xu=subset(rng, p["n"], q), fix=subset(rng, p["n"], rng.choice([0., 0., .2])))
    cs["runs"] = cs["runs"][:1]
    return cs


def bounds_of(cs):
    p = cs["probs"][0]
    free = [k for k in range(p["n"]) if p["xl"][k] != p["xu"][k]]
    return [k for k in free if p["xl"][k] > -1e19], [k for k in free if p["xu"][k] < 1e19]


def with_constraints(cs):
    """the variable bounds written down as constraints, instead of replace_bounds"""
    p, run = cs["probs"][0], cs["runs"][0]
    run["opts"] = [o for o in run["opts"] if o[0] != "replace_bounds"]
    lb, ub = bounds_of(cs)
    m = p["m"]
    sc = p.get("scal", {})
    if sc and ("x" in sc or "g" in sc):
        sx = sc.get("x", [1.] * p["n"])
        sc["g"] = sc.get("g", [1.] * m) + [sx[k] for k in lb + ub]
    for pos, k in enumerate(lb + ub):
        lo = pos < len(lb)
        p["con"].append([[1., [k]]])
        p["gl"].append(p["xl"][k] if lo else -2e19)
        p["gu"].append(2e19 if lo else p["xu"][k])
        p["jac"].append([m + pos, k, 1.])
        if "lam0" in p:
            p["lam0"].append(-p["zl0"][k] if lo else p["zu0"][k])
        if "clin" in p:
            p["clin"].append(1)
    p["m"] = m + len(lb) + len(ub)
    for k in set(lb + ub):
        p["xl"][k], p["xu"][k] = -2e19, 2e19
    return cs


def replace_case(rng, i):
    while True:
        g = e2e.warm_case if rng.random() < .3 else e2e.random_case
        # honor_original_bounds concerns variable bounds only
        cs = g(rng, i, pool={k: v for k, v in _iterate.P.items() if k not in ("fixed_variable_treatment", "honor_original_bounds")}, query=0, fixed=.1, stop=.05, fault=0)
        cs["runs"] = cs["runs"][:1]
        p = cs["probs"][0]
        for k in range(p["m"]):
            if p["gl"][k] != p["gu"][k]:
                one = [p["gl"][k] > -1e19, p["gu"][k] < 1e19]
                if one[0] == one[1]:
                    if rng.random() < .5:
                        p["gl"][k], p["gu"][k] = (p["gl"][k] if one[0] else -30.), 2e19
                    else:
                        p["gl"][k], p["gu"][k] = -2e19, (p["gu"][k] if one[1] else 30.)
        if p["n"] - sum(a == b for a, b in zip(p["xl"], p["xu"])) < sum(a == b for a, b in zip(p["gl"], p["gu"])):
            continue
        cs["runs"][0]["opts"].append(["replace_bounds", "yes"])
        return cs


def solves(c, n):
    """solving the wrapped problem is solving the problem written down by hand"""
    rng = random.Random("C25/solve/%s" % c.seed)
    unstarted = lambda ev: not any(e["e"] == "iter" for e in ev)
    for lo in range(0, n, 1000):
        k = min(1000, n - lo)
        _iterate.twins(c, "C25.reduced_solve", [reduce_case(rng, i) for i in range(k)], by_hand, skip=unstarted, cfg=lambda cs: dict(drop=[v + 1 for v in cs["runs"][0]["reduce"]["g"]]))

        def rcfg(cs):
            lb, ub = bounds_of(cs)
            return dict(m=cs["probs"][0]["m"], lb=[v + 1 for v in lb], ub=[v + 1 for v in ub])
        _iterate.twins(c, "C25.bound_free_solve", [replace_case(rng, i) for i in range(k)], with_constraints, skip=unstarted, cfg=rcfg)
        c.count("twin_solves", 2 * k)


def run(c):
    solves(c, 20000 if c.thorough else 400)
    rng = random.Random("C25/%s" % c.seed)
    cases = []
    # all drop sets of small problems in both index bases
    nmax, mmax = (3, 3) if c.thorough else (2, 2)
    sets = lambda k: [[q for q in range(k) if b >> q & 1] for b in range(1 << k)]
    for n in range(1, nmax + 1):
        for m in range(0, mmax + 1):
            for g in sets(m):
                for xl in sets(n):
                    for xu in sets(n):
                        for fx in sets(n):
                            for base in (0, 1):
                                if n + m > 4 and rng.random() < .7:
                                    continue
                                cases.append(wrap_case(rng, len(cases), [rng.choice([0, 1, 2, 3, 3, 4]) for _ in range(n)], [rng.randrange(5) for _ in range(m)], dict(g=g, xl=xl, xu=xu, fix=fx), None, base))
    for _ in range(20000 if c.thorough else 500):
        n, m = rng.randint(1, 7), rng.randint(0, 6)
        cases.append(wrap_case(rng, len(cases), [rng.choice([0, 1, 2, 3, 3, 4]) for _ in range(n)], [rng.randrange(5) for _ in range(m)]))
    for lo in range(0, len(cases), 5000):
        wrap(c, cases[lo:lo + 5000])


main(run, "C25", "model_checking")
