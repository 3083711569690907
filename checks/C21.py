#!/usr/bin/env python3
from _trace import *
import copy
import hashlib
import _iterate
import e2e

FIELDS = ("x0", "y0", "bnd", "obj")
# options that choose components of the algorithm
STRUCT = [("hessian_approximation", "exact", "limited-memory"), ("mu_strategy", "monotone", "adaptive"), ("line_search_method", "filter", "cg-penalty"), ("mu_oracle", "probing", "loqo"), ("fixed_mu_oracle", "average_compl", "loqo"),
          ("linear_system_scaling", "none", "slack-based"), ("nlp_scaling_method", "none", "gradient-based"), ("resto.mu_strategy", "monotone", "adaptive"), ("limited_memory_update_type", "bfgs", "sr1"),
          ("limited_memory_aug_solver", "sherman-morrison", "extended"), ("limited_memory_max_history", "6", "2")]
POOL = {k: v for k, v in gen.POOL.items() if k not in ("mehrotra_algorithm", "mu_strategy", "line_search_method", "mu_oracle", "linear_system_scaling", "nlp_scaling_method", "hessian_approximation", "warm_start_init_point", "fixed_mu_oracle") and not k.startswith("limited_memory") and k not in ("resto.mu_strategy", "resto.mu_oracle", "resto.line_search_method")} | {
    "bound_push": ["0.01", "1e-8", "1"], "constr_mult_init_max": ["1000", "0", "1"], "mu_init": ["0.1", "1e-4"], "max_iter": ["3", "50"], "hessian_constant": ["yes"], "jac_c_constant": ["yes"], "jac_d_constant": ["yes"],
    "grad_f_constant": ["yes"], "fixed_variable_treatment": ["make_parameter", "make_constraint", "relax_bounds"], "timing_statistics": ["yes"]}
# parameters of the components that keep a state of their own from iteration to iteration
STATE = {k: v for k, v in (_iterate.LSPOOL | _iterate.POOLS["C10"]).items() if k not in {s[0] for s in STRUCT} and not k.startswith("resto.") and k not in POOL and k not in ("mehrotra_algorithm", "line_search_method", "warm_start_init_point", "max_iter")} | {
    "mu_allow_fast_monotone_decrease": ["no"], "barrier_tol_factor": ["10", "1e3", "1e5"], "watchdog_shortened_iter_trigger": ["1", "2"]}


def universe(rng, i, nprob):
    """concrete problems, data versions, options and disturbances for the abstract ones of Solves.tla"""
    u = dict(probs=[], mods=[])
    lim = rng.random() < .35
    for k in range(nprob):
        kw = dict(scal=True) if rng.random() < .5 else {}
        cs = e2e.random_case(rng, i, nopts=(0, 0), fixed=.1, userscal=.4, kinds=["mixed", "hard", "nonconvex", "log", "eq", "convex", "infeas"], **kw)
        p = cs["probs"][0]
        n, m = p["n"], p["m"]
        for z, d in (("zl0", n), ("zu0", n)):
            p[z] = [rng.choice([1.0, .5, 0., rng.randint(0, 40) / 8]) for _ in range(d)]
        p["lam0"] = [rng.choice([0., 1., -2.]) for _ in range(m)]
        alt = dict(x0=dict(x0=[v + rng.randint(-8, 8) / 8 for v in p["x0"]]),
                   y0=dict(zl0=[v + .5 for v in p["zl0"]], zu0=[v * 2 for v in p["zu0"]], lam0=[-v for v in p["lam0"]]),
                   obj=dict(obj=p["obj"] + [[rng.randint(1, 8) / 4, [rng.randrange(n)]]]))
        if rng.random() < .6:
            d = [rng.randint(0, 2) / 4 for _ in range(n)]
            alt["bnd"] = dict(xl=[v - a if v > -1e19 else v for v, a in zip(p["xl"], d)], xu=[v + a if v < 1e19 else v for v, a in zip(p["xu"], d)])
            for k2 in range(n):
                if p["xl"][k2] == p["xu"][k2]:
                    alt["bnd"]["xl"][k2] = alt["bnd"]["xu"][k2] = p["xl"][k2] + .25
        else:   # another set of bounds (the structure of the problem changes)
            alt["bnd"] = dict(xl=[rng.choice([-2e19, v - 1 if abs(v) < 1e19 else -5.]) for v in p["xl"]], xu=[rng.choice([2e19, v + 1 if abs(v) < 1e19 else 5.]) for v in p["xu"]])
        base = {f: {k2: p.get(k2) for k2 in alt[f]} for f in FIELDS}
        u["probs"].append(p)
        u["mods"].append({f: (base[f], alt[f]) for f in FIELDS})
        u["bad"] = None
    o = gen.options(rng, POOL, (0, 3))
    u["base"] = [["max_iter", "40"]] + ([["hessian_approximation", "limited-memory"]] if lim else []) + ([["nlp_scaling_method", "user-scaling"]] if rng.random() < .3 else []) + gen.options(rng, POOL, (0, 2)) + (gen.options(rng, STATE, (1, 4)) if rng.random() < .6 else [])
    if rng.random() < .15:   # several decreases of the barrier parameter at once
        u["base"] += [["mu_allow_fast_monotone_decrease", "no"], ["barrier_tol_factor", rng.choice(["1e2", "1e4"])]]
    u["plain"] = o or [["mu_init", "1e-3"]]
    if rng.random() < .4:   # runs that spend many iterations at acceptable points
        u["base"] += [["acceptable_tol", rng.choice(["1e6", "1e3", "10"])], ["acceptable_dual_inf_tol", "1e20"], ["acceptable_constr_viol_tol", "1e20"], ["acceptable_compl_inf_tol", "1e20"], ["acceptable_iter", rng.choice(["3", "5", "7"])]]
    while True:
        st = rng.choice(STRUCT)
        if st[0] == "nlp_scaling_method" and "user-scaling" in dict(u["base"]).values() or st[0].startswith("limited") and not lim:
            continue
        break
    u["struct"] = st
    if st[0] == "mu_oracle":
        u["base"].append(["mu_strategy", "adaptive"])
    if st[0] == "fixed_mu_oracle":
        u["base"] += [["mu_strategy", "adaptive"], ["adaptive_mu_globalization", rng.choice(["obj-constr-filter", "kkt-error"])]]
    u["fault"] = [dict(kind=rng.choice(["f", "g", "gradf", "jac", "hes"]), k=rng.choice([1, 2, 3, 5, 8]), what=rng.choice(["false", "nan", "inf"]), pos=0, to=-1)]
    # the linear solver does not behave reproducibly with NaNs in the matrix
    if u["fault"][0]["what"] != "false" and u["fault"][0]["kind"] in ("jac", "hes") or rng.random() < .5 or any("log" in json.dumps(p) or "sqrt" in json.dumps(p) or "inv" in json.dumps(p) for p in u["probs"]):
        for o in (u["base"], u["plain"]):
            o[:] = [x for x in o if x[0] != "check_derivatives_for_naninf"]
        u["base"].append(["check_derivatives_for_naninf", "yes"])
    u["stop"] = rng.choice([1, 2, 3, 4, 6])
    u["query"] = rng.choice([0, 31])
    if not all("scal" in p for p in u["probs"]):
        u["base"] = [x for x in u["base"] if x != ["nlp_scaling_method", "user-scaling"]]
    return u


def options(u, o):
    r = dict((k, v) for k, v in u["base"])
    if o["plain"]:
        r.update(dict(map(tuple, u["plain"])))
    if o["same"]:
        r["warm_start_same_structure"] = "yes"
    if o["warm"]:
        r["warm_start_init_point"] = "yes"
    st = u["struct"]
    r[st[0]] = st[2] if o["struct"] else st[1]
    return r


def run_of(u, s, opts, prev, mods):
    d = s["d"]
    r = dict(app=s["a"], how=s["how"], query=u["query"], rec=0, faults=u["fault"] if d == "fault" else [], opts=None)
    if d == "stop":
        r["stop"] = u["stop"]
    opts = dict(opts)
    if d == "badbuild":
        opts["linear_solver"] = "custom"
    mods = dict(mods)
    if d == "badopt":   # refused when the algorithm is set up
        opts["min_refinement_steps"], opts["max_refinement_steps"] = "5", "3"
    if d == "badsetup":
        p = u["probs"][s["p"] - 1]
        mods.update(xl=[1.0] * p["n"], xu=[0.0] * p["n"])
    r["opts"] = [[k, v] for k, v in opts.items()]
    r["unset"] = sorted(set(prev) - set(opts))
    if mods:
        r["mod"] = mods
    return r, opts


def mods_of(u, p, data):
    m = {}
    for f in FIELDS:
        v = data[f]
        if len(v) == 1:
            m.update(u["mods"][p - 1][f][v[0]])
    return m


def concrete(u, h, cid):
    """the runs of the driver for a history of Solves.tla"""
    runs, sol, opts = [], [], {}
    pend = {}
    for o in h:
        q = pend.setdefault(o["a"], dict(load=None, last=False))
        if o["op"] == "load":
            q.update(load=o["p"], last=False)
        elif o["op"] == "from_last":
            q["last"] = True
        elif o["op"] == "solve":
            r, opts[o["a"]] = run_of(u, o, options(u, o["opts"]), opts.get(o["a"], {}), mods_of(u, o["p"], o["data"]))
            if q["load"]:
                r["prob"] = q["load"] - 1
            if q["last"]:
                r["from_last"] = True
            pend[o["a"]] = dict(load=None, last=False)
            runs.append(r)
            sol.append(o)
    return dict(id=cid, probs=u["probs"], runs=runs), sol


DROP = ("timer", "x", "xi", "l", "xs")


def course(run, a):
    out = []
    for e in run["ev"]:
        o = {k: v for k, v in e.items() if k not in DROP}
        if "x" in e and isinstance(e["x"], int) and e["x"] > 0:
            o["xv"] = a["xs"][e["x"] - 1]
        if "l" in e and isinstance(e["l"], int) and e["l"] > 0:
            o["lv"] = a["ls"][e["l"] - 1]
        out.append(o)
    return out


def digest(o):
    return hashlib.sha1(json.dumps(o, sort_keys=True).encode()).hexdigest()


def histories(c):
    one = dict(Probs="{1}", Kinds='{"opt","reopt"}', Dist='{"none","stop","fault","badsetup","badopt","badbuild"}', MaxPrep="1", SameOpt="FALSE", Apps="{1}")
    hs = graph(c, "Solves", dict(one, MaxSolves="3"), invs=["KeyFresh"], workers=1)
    same = graph(c, "Solves", dict(one, MaxSolves="3", SameOpt="TRUE", Dist='{"none"}'), workers=1)
    walk = walks(c, "Solves", dict(one, Apps="{1, 2}", Probs="{1, 2}", MaxSolves="6", MaxPrep="2", SameOpt="FALSE"), 3000 if c.thorough else 400, 20)
    return dict(graph=hs, same=[h for h in same if any(o.get("o") == "same" for o in h)], walks=walk)


def batch(c, exe, us, sets, k, rng, flavor):
    """k histories of every set in every universe"""
    cases, plan = [], []
    for u in us:
        group = []
        for name, hs in sets.items():
            for h in rng.sample(hs, min(len(hs), k)):
                cs, sol = concrete(u, h, len(cases))
                cases.append(cs)
                group.append((cs, sol))
        plan.append(group)
    ans = solve_all(c, cases, flavor=flavor, exe=exe)
    # the solves of the same key by an application that did nothing else
    fresh = []
    for u, group in zip(us, plan):
        seen = set()
        for cs, sol in group:
            a = ans.get(cs["id"])
            if a is None:
                continue
            for j, s in enumerate(sol):
                if not s["fresh"] or s["key"] in seen:
                    continue
                m = mods_of(u, s["p"], s["data"])
                if len(s["data"]["x0"]) == 2 or len(s["data"]["y0"]) == 2:
                    st = final_before(cs, sol, a, j)
                    if st is None:
                        continue
                    m.update({f: st[f] for f in ("x0",) * (len(s["data"]["x0"]) == 2) + ("zl0", "zu0", "lam0") * (len(s["data"]["y0"]) == 2)})
                seen.add(s["key"])
                r, _ = run_of(u, dict(s, how="opt", a=1), options(u, s["opts"]), {}, m)
                r["prob"] = s["p"] - 1
                fresh.append((u, s, dict(id=len(fresh), probs=u["probs"], runs=[r])))
    fans = solve_all(c, [f[2] for f in fresh], flavor=flavor, exe=exe)
    tr, allcases = [], {}
    details = {}
    for g, (u, group) in enumerate(zip(us, plan)):
        ev = []

        def add(cs, sol, a, what):
            for j, (s, run) in enumerate(zip(sol, a["runs"])):
                co = course(run, a)
                refused = any(e["e"] == "exc" and "ReOptimize" in str(e.get("m", e.get("what", ""))) for e in run["ev"])
                d = digest(co)
                details[d] = co
                ev.append(dict(e="solve", key=s["key"], course=d, refused=refused, expect=bool(s["refused"]), src="%s %s[%d]" % (what, cs["id"], j)))
                c.count("solves_%s%s_%s" % (s["how"], "_refused" if s["refused"] else "", s["d"]))
        for fu, s, cs in fresh:
            if fu is u and cs["id"] in fans:
                add(cs, [dict(s, refused=False)], fans[cs["id"]], "fresh")
        for cs, sol in group:
            if cs["id"] in ans:
                add(cs, sol, ans[cs["id"]], "history")
        keys = [e["key"] for e in ev if not e["expect"]]
        c.count("keys", len(set(keys)))
        c.count("solves_compared", len(keys) - len(set(keys)))
        tr.append(dict(case=g, name="universe%d" % g, cfg={}, ev=ev))
        allcases[g] = {"universe": {k2: u[k2] for k2 in ("base", "plain", "struct", "fault", "stop")}}
    fails = check_traces(c, "SolvesTrace", tr)
    for t, i, cl in fails:
        e = tr[t]["ev"][i]
        first = next((x for x in tr[t]["ev"] if x["key"] == e["key"] and not x["expect"]), None)
        diff = None
        if cl == "C21.course":
            A, B = details[first["course"]], details[e["course"]]
            k = next((q for q in range(min(len(A), len(B))) if A[q] != B[q]), min(len(A), len(B)))
            diff = dict(at=k, lengths=[len(A), len(B)], first=A[k:k + 1], second=B[k:k + 1], fields=[f for f in A[k] if A[k].get(f) != B[k].get(f)] if k < min(len(A), len(B)) else None, ends=[A[-1].get("ret"), B[-1].get("ret")])
        ca = [x for x in (cases if e["src"].startswith("history") else [f[2] for f in fresh]) if str(x["id"]) == e["src"].split()[1].split("[")[0]]
        c.violation("SolvesTrace/" + cl, "solve %s differs from %s of the same key" % (e["src"], first and first["src"]) if cl == "C21.course" else "solve %s: refused=%s" % (e["src"], e["refused"]),
                    dict(key=e["key"], src=[e["src"], first and first["src"]], diff=diff, universe=allcases[t]["universe"], case=ca[0] if ca else None))


def final_before(cs, sol, a, j):
    """the solution the user had when run j started (from_last)"""
    inst = None
    for k in range(j, -1, -1):
        if sol[k]["a"] != sol[j]["a"]:
            continue
        if k < j:
            for e in a["runs"][k]["ev"]:
                if e["e"] == "final":
                    inst = e
            if inst:
                if cs["runs"][kk].get("from_last"):
                    return dict(x0=a["xs"][inst["x"] - 1], zl0=inst["zl"], zu0=inst["zu"], lam0=inst["lam"])
                inst = None
        kk = k
    return None


def run(c):
    sets = histories(c)
    for name, hs in sets.items():
        c.count("histories_" + name, len(hs))
    for flavor, nu, k in (("std", 250 if c.thorough else 22, 60 if c.thorough else 28),) + ((("asan", 6, 20),) if c.thorough else ()):
        rng = random.Random("C21/%s/%s" % (c.seed, flavor))
        exe = build(["solve"], flavor=flavor)["solve"]
        for lo in range(0, nu, 25):
            us = [universe(rng, i, 2) for i in range(min(25, nu - lo))]
            batch(c, exe, us, sets, k, rng, flavor)
    _iterate.run(c, "C21", 12000 if c.thorough else 250)


if __name__ == "__main__":
    main(run, "C21", "model_checking")
