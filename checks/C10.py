#!/usr/bin/env python3
from _base import *
from _trace import *
import itertools
import _iterate
import e2e

# an iterate relative to the barrier parameter in force: products a*mu, b*mu, residual pr*mu, dual residual du*mu
ERR = {"solved": dict(rel=True, a=1, b=1, pr=0, du=0), "near": dict(rel=True, a=1, b=8, pr=3, du=2), "off": dict(rel=True, a=1, b=40, pr=0, du=0), "infeasible": dict(rel=True, a=1, b=2, pr=50, du=0),
       "dual": dict(rel=True, a=1, b=1, pr=0, du=1e3), "far": dict(rel=False, a=2, b=.5, pr=3, du=1), "tight": dict(rel=False, a=1e-9, b=1e-9, pr=0, du=0), "bad": dict(rel=False, a=10, b=30, pr=50, du=20)}


def step(err, tiny=False, skip=False, f=0, orc=1e-2, orx=.1, tol=None):
    d = dict(ERR[err], tiny=tiny, skip=skip, f=f, orc=orc, orx=orx)
    if tol:
        d["tol"] = tol
    return d


def updates(c):
    """The real update classes between scripted iterates, line search and oracles: every short sequence, long random ones."""
    exe = build(["mudrive"])["mudrive"]
    rng = random.Random("C10/%s" % c.seed)
    cases = []

    def add(kind, opts, steps, **k):
        cases.append(dict(dict(id=len(cases), kind=kind, opts=opts, steps=steps, level=0, nob=False, loqo=False, fixorc=False), **k))
    mono = [[], [["mu_allow_fast_monotone_decrease", "no"]], [["mu_target", "1e-3"]], [["mu_init", "1e-10"]], [["barrier_tol_factor", "2"], ["mu_superlinear_decrease_power", "1.1"], ["mu_linear_decrease_factor", ".9"]],
            [["tau_min", ".5"], ["mu_init", "2"]], [["tol", "1e-2"], ["compl_inf_tol", "1e-3"]]]
    steps = [step(e, tiny=t) for e in ("solved", "near", "off", "infeasible", "dual", "tight") for t in (False, True)]
    for o in mono:
        for lev in (0, 1):
            for q in itertools.product(steps, repeat=3 if c.thorough else 2):
                add("monotone", o, list(q), level=lev)
    ada = [[["adaptive_mu_globalization", "kkt-error"], ["adaptive_mu_kkterror_red_iters", k]] for k in ("0", "1", "2")] + [[["adaptive_mu_globalization", "obj-constr-filter"]], [["adaptive_mu_globalization", "never-monotone-mode"]]]
    steps = [step(e, tiny=t, skip=k, f=f, orc=o) for e, f in (("solved", -1), ("far", 1), ("bad", 5), ("tight", 0)) for t in (False, True) for k in (False, True) for o in (1e-2, 1e-14, 1e9, -1)]
    few = [q for q in steps if not (q["tiny"] and q["skip"]) and q["orc"] in (1e-2, -1)]
    for o in ada:
        for q in itertools.product(few if not c.thorough else steps, few):
            add("adaptive", o, list(q))
            add("adaptive", o, [step("far", f=3), step("bad", f=9)] + list(q))   # reaches fixed mode when progress is required
    pool = _iterate.POOLS["C10"]
    num = {k: v for k, v in pool.items() if k.startswith(("adaptive_mu", "filter_m", "mu_m", "mu_t", "mu_l", "mu_s", "mu_a", "mu_init", "barrier", "tau", "quality_function_", "compl_inf", "tol", "s_max"))and k != "mu_strategy"}
    for _ in range(40000 if c.thorough else 3000):
        ks = rng.sample(sorted(num), rng.randint(0, 7))
        o = [[k, rng.choice(num[k])] for k in ks]
        qs = []
        mult = rng.random() < .3
        for _ in range(rng.randint(2, 9)):
            e = rng.choice(list(ERR))
            q = step(e, tiny=rng.random() < .15, skip=rng.random() < .1, f=rng.randint(-4, 4), orc=rng.choice([1e-2, 1e-3, .5, 1e-14, 1e9, 1e-6] + [-1] * (rng.random() < .1)), orx=rng.choice([.1, 1e-13, 1e6, -1]),
                     tol=rng.choice(["1e-6", "1e-9"]) and rng.choice([1e-6, 1e-9]) if rng.random() < .1 else None)
            if mult:
                for k in ("a", "b", "pr", "du"):
                    q[k] *= rng.choice([1, .5, 2, 1.01, 1e-3])
            qs.append(q)
        add(rng.choice(["monotone", "adaptive", "adaptive", "adaptive"]), o, qs, level=rng.choice([0, 0, 1]), nob=rng.random() < .03, loqo=rng.random() < .3, fixorc=rng.random() < .3)
    # comparable quality measures in all norms
    for _ in range(20000 if c.thorough else 2000):
        o = [["adaptive_mu_globalization", "kkt-error"], ["adaptive_mu_kkterror_red_iters", rng.choice(["1", "2"])], ["adaptive_mu_kkterror_red_fact", rng.choice(["0.9", "0.9999", "0.3"])]]
        o += [[k, rng.choice(pool[k])] for k in ("quality_function_norm_type", "quality_function_centrality", "quality_function_balancing_term")]
        v = lambda: rng.choice([0, .25, .5, 1, 1.5, 2, 3])
        add("adaptive", o, [dict(rel=False, a=v() + .1, b=v() + .1, pr=v(), du=v(), tiny=False, skip=False, f=0, orc=1e-2, orx=.1) for _ in range(4)])
    t0 = time.time()
    ans, crashes = run_parallel(exe, cases, timeout=300)
    log("mudrive: %d cases, %.1fs" % (len(cases), time.time() - t0))
    for case, rc, err in crashes:
        c.violation("mudrive/crash", "the update died (%s)" % rc, dict(case=case, rc=rc, stderr=err))
    for lo in range(0, len(cases), 40000):
        tr = [dict(cfg=dict(x=0), ev=ans[cs["id"]]["ev"], case=cs["id"], name="%s/%d" % (cs["kind"], cs["id"])) for cs in cases[lo:lo + 40000] if cs["id"] in ans]
        fails = check_traces(c, "Mu", tr)
        report(c, "Mu", tr, fails, {cs["id"]: cs for cs in cases})
        for x in tr:
            for e in x["ev"]:
                if e["e"] == "mu.update":
                    c.count("scripted_%s_%s%s%s" % (e["r"], "free" if e["free0"] else "fixed", "-free" if e["free"] else "-fixed", "-changed" if e["mu"] != e["mu0"] else ""))


def run(c):
    updates(c)
    _iterate.linesearch(c, "Mu", e2e.barrier, "C10", 20000 if c.thorough else 600)


if __name__ == "__main__":
    main(run, "C10", "trace_validation")
