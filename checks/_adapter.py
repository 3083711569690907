"""The real TNLPAdapter on generated problems, validated against Adapter.tla (C->S)."""
import itertools
from _trace import *
from e2e import d2s, TREAT
INF = 2e19
VB = [(-INF, INF), (-2., INF), (-INF, 3.), (-2., 3.), (1., 1.)]


def intprob(rng, n, m, vt, ct, gs, dup=.15):
    """integer-valued problem with variable bound types vt and constraint types ct"""
    f = lambda: [[float(rng.randint(-3, 3)), [rng.randrange(n) for _ in range(rng.randint(1, 3))]] for _ in range(rng.randint(1, 4))]
    obj, con = f(), [f() for _ in range(m)]
    sh = lambda b, d: b if abs(b) >= INF else b + d
    xl, xu, gl, gu = [], [], [], []
    for t in vt:
        d = rng.randint(-3, 3)
        xl.append(sh(VB[t][0], d)); xu.append(sh(VB[t][1], d))
    for t in ct:
        d = rng.randint(-3, 3)
        gl.append(sh(VB[t][0], d)); gu.append(sh(VB[t][1], d))
    J = gs.jac_pattern(con)
    J += [z for z in ((rng.randrange(m), rng.randrange(n)) for _ in range(rng.randint(0, 2)) if m) if z not in J]
    H = gs.hes_pattern([obj] + con, n)
    return dict(n=n, m=m, base=rng.randint(0, 1), obj=obj, con=con, xl=xl, xu=xu, gl=gl, gu=gu, x0=[float(rng.randint(-4, 4)) for _ in range(n)], zl0=[float(rng.randint(0, 4)) for _ in range(n)],
                zu0=[float(rng.randint(0, 4)) for _ in range(n)], lam0=[float(rng.randint(-4, 4)) for _ in range(m)], jac=gs.split(rng, list(dict.fromkeys(J)), dup),
                hes=gs.split(rng, [(j, i) if rng.random() < .3 else (i, j) for i, j in H], .15))


def adapter_case(rng, i, vt, ct, treat, fd=(), dup=.15):
    n, m = len(vt), len(ct)
    p = intprob(rng, n, m, vt, ct, gen, dup)
    if rng.random() < .25:   # inconsistent or equal in another way
        k = rng.randrange(n + m)
        a, b = (p["xl"], p["xu"]) if k < n else (p["gl"], p["gu"])
        k = k if k < n else k - n
        a[k], b[k] = rng.choice([(2., 1.), (5., 5.), (3., -3.), (0., 1.)])
    c = dict(id=i, prob=p, opts=[["fixed_variable_treatment", treat]] + [[k, "finite-difference-values"] for k in fd], nopts=[], rounds=rng.choice([1, 1, 2]))
    if rng.random() < .3:
        c["nopts"] = [["nlp_lower_bound_inf", -2.5], ["nlp_upper_bound_inf", 2.5]]
    if rng.random() < .3:
        c["nopts"].append(["bound_relax_factor", rng.choice([0., 1e-3])])
    if rng.random() < .5:
        p["nl"] = [k for k in range(n) if rng.random() < .6]
        rng.shuffle(p["nl"])
    if rng.random() < .5:
        p["scal"] = dict(obj=rng.choice([2., -3.]))
        if rng.random() < .7:
            p["scal"]["x"] = [float(rng.randint(1, 5)) for _ in range(n)]
        if rng.random() < .7:
            p["scal"]["g"] = [float(rng.randint(1, 5)) for _ in range(m)]
    c["pts"] = [[float(rng.randint(-4, 4)) for _ in range(max(n, 1))] for _ in range(2)]
    c["nums"] = [float(rng.randint(-3, 3)) for _ in range(31)]
    names = ["f", "gradf", "c", "d", "jc", "jd", "h"]
    ops = [[nm, 0] for nm in names] + [[rng.choice(names + ["change"]), rng.randrange(2)] for _ in range(rng.randint(4, 14))]
    rng.shuffle(ops)
    c["ops"] = [["start", 0, rng.choice([31, rng.randrange(32)])]] + ops + [["final", rng.randrange(2)]] + ([["f", 0], ["final", 1]] if rng.random() < .3 else [])
    return c


def adapter_cfg(c):
    p, no = c["prob"], dict(map(tuple, c["nopts"]))
    S = lambda v: [d2s(x) for x in v]
    sc = p.get("scal", {})
    fd = [k for k, v in c["opts"] if v == "finite-difference-values"]
    return dict(n=p["n"], m=p["m"], fdj="jacobian_approximation" in fd, fdg="gradient_approximation" in fd, xl=S(p["xl"]), xu=S(p["xu"]), gl=S(p["gl"]), gu=S(p["gu"]), treat=TREAT[c["opts"][0][1]], linf=d2s(no.get("nlp_lower_bound_inf", -1e19)), uinf=d2s(no.get("nlp_upper_bound_inf", 1e19)),
                brf=d2s(no.get("bound_relax_factor", 1e-8)), x0=S(p["x0"]), zl0=S(p["zl0"]), zu0=S(p["zu0"]), lam0=S(p["lam0"]), hasnl="nl" in p, nlorder=[k + 1 for k in p.get("nl", [])],
                so=d2s(sc.get("obj", 1.)), sx=S(sc.get("x", [])), sg=S(sc.get("g", [])), hassx="x" in sc, hassg="g" in sc)


def adapter(c, cases, flavor, pid="C18", only=None):
    exe = build(["adapter"], flavor=flavor)["adapter"]
    ans, crashes = run_parallel(exe, cases, timeout=300)
    for case, rc, err in crashes:
        c.violation("adapter/crash", "the adapter died (%s)" % rc, dict(case=case, rc=rc, stderr=err))
    by = {cs["id"]: cs for cs in cases}
    tr = [dict(case=i, name="adapter/%d" % i, cfg=adapter_cfg(by[i]), ev=a["ev"]) for i, a in ans.items()]
    fails = [(t, i, cl if pid == "C18" else cl.replace("C18.", pid + ".fd_")) for t, i, cl in check_traces(c, "Adapter", tr)]
    report(c, "Adapter", tr, fails, by, only=only)
    c.count("adapter_problems", len(tr))
    c.sample(dict(adapter=tr[0]["cfg"], events=tr[0]["ev"][:2]))
