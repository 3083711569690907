#!/usr/bin/env python3
from _trace import *
import _iterate
import e2e

D = dict(checks=3, iters=4, mu=["keep"], dir=["down", "up"], acc=[], corr=[], restored=[], opts=[], resto=True, amin=.2, x0=8.)


def cf(opts=(), **k):
    return dict(D, opts=[[a, str(b)] for a, b in opts], **k)


WD = ("watchdog_shortened_iter_trigger", 1)
SOFT, NOSOFT = ("soft_resto_pderror_reduction_factor", "1e10"), ("soft_resto_pderror_reduction_factor", "0")
CONFIGS = dict(
    plain=cf(dir=["down", "up", "limited"]),
    backtrack=cf([NOSOFT], amin=.03, dir=["up", "limitedup"], checks=2, iters=3),
    watchdog=cf([WD, ("watchdog_trial_iter_max", 1)], checks=2, dir=["limited", "down"], iters=6),
    watchdog_long=cf([WD, ("watchdog_trial_iter_max", 2)], dir=["limited"], mu=["keep", "new", "up"], iters=8),
    watchdog_fallback=cf([WD, NOSOFT], checks=2, dir=["down", "fail", "tiny"], x0=0., iters=6),
    softresto=cf([SOFT, ("max_soft_resto_iters", 2)], checks=2, dir=["down", "tiny"], mu=["keep", "new"], iters=7, amin=.6),
    softreject=cf([("soft_resto_pderror_reduction_factor", "1e-12")], dir=["down", "bad"], iters=4, amin=.6),
    fallback=cf([], dir=["fail", "down", "up"], mu=["keep", "fail"], acc=["no", "yes"], iters=4, amin=.6),
    noresto=cf([NOSOFT], resto=False, dir=["down", "fail"], iters=4, amin=.6),
    tiny=cf([], dir=["tiny", "tinybad", "tinydual", "down"], x0=0., iters=5, amin=.6),
    feasible=cf([NOSOFT], dir=["land", "down", "fail"], acc=["no", "yes"], checks=2, iters=5, amin=.6),
    lax=cf([NOSOFT], mu=["keep", "lax", "rigorous"], dir=["down"], checks=2, iters=5, amin=.6),
    expect=cf([("expect_infeasible_problem", "yes"), ("expect_infeasible_problem_ytol", "1.3"), ("expect_infeasible_problem_ctol", "0.6")], checks=2, dir=["up", "down"], iters=6, dy=.25, amin=.3),
    shortened=cf([("expect_infeasible_problem", "yes"), ("watchdog_shortened_iter_trigger", 0)], checks=2, dir=["down"], iters=9, amin=.3),
    starts_resto=cf([("start_with_resto", "yes")], checks=2, iters=4, amin=.6),
    maxsteps=cf([("accept_after_max_steps", 1)], dir=["down", "bad"], checks=2, iters=4, amin=.03),
    everystep=cf([("accept_every_trial_step", "yes"), WD], dir=["limited", "bad"], corr=["no", "yes"], iters=5),
    corrector=cf([WD], corr=["no", "yes"], checks=2, dir=["down", "limited"], iters=5, amin=.3),
    watchdog_resto=cf([("watchdog_shortened_iter_trigger", 2), NOSOFT], dir=["down", "limited"], checks=2, amin=.4, iters=8),
    nearly=cf([NOSOFT, ("constr_viol_tol", "1e-12")], dir=["near", "down"], acc=["no", "yes"], checks=2, iters=5, amin=.6),
    softbad=cf([SOFT], dir=["down", "bad"], checks=2, iters=6, amin=.6),
    tiny_between=cf([], dir=["tiny", "up", "land", "tinydual"], x0=0., checks=1, iters=8),
    noresto_watchdog=cf([NOSOFT, ("watchdog_shortened_iter_trigger", 2)], resto=False, dir=["down", "fail"], checks=2, iters=8),
    restored=cf([WD], restored=["no", "yes"], checks=2, dir=["limited"], iters=6, amin=.3),
    duals=cf([("alpha_for_y", "min"), ("alpha_red_factor", "0.25")], dir=["limited", "up"], checks=2, iters=3),
    duals2=cf([("alpha_for_y", "dual-and-full"), ("alpha_for_y_tol", "60"), NOSOFT], dir=["limited", "up"], mu=["keep", "tau"], checks=2, iters=3),
)


def script(rng):
    """random decisions, or a repeated pattern of decisions (with some exceptions)"""
    if rng.random() < .5:
        return [rng.randrange(12) for _ in range(150)]
    p = [rng.randrange(3) for _ in range(rng.randint(2, 7))]
    return [rng.randrange(3) if rng.random() < .05 else p[k % len(p)] for k in range(150)]


def explore(c, exe, name, cfg, n, budget, timeout=300):
    """all decision sequences for the first n decisions (then the first option of each), at most budget of them"""
    done, front, stop = [], [[]], False
    nid = 0
    while front and not stop:
        if len(done) + len(front) > budget:
            front = c.rng.sample(front, max(0, budget - len(done)))
            stop = True
            c.count("explore_truncated_%s" % name)
        cases = []
        for s in front:
            cases.append(dict(id=nid, cfg=cfg, script=s))
            nid += 1
        ans, crashes = run_parallel(exe, cases, timeout=timeout)
        for case, rc, err in crashes:
            c.violation("lsdrive/crash", "the line search died or hung (%s)" % rc, dict(case=case, rc=rc, stderr=err))
        front = []
        for cs in cases:
            a = ans.get(cs["id"])
            if a is None:
                continue
            done.append((cs, a))
            for p in range(len(cs["script"]), min(n, len(a["ar"]))):
                for v in range(1, a["ar"][p]):
                    front.append(cs["script"] + [0] * (p - len(cs["script"])) + [v])
    return done


def run(c):
    exe = build(["lsdrive", "solve"])
    n, budget = (14, 30000) if c.thorough else (9, 250)
    tr, cases = [], []

    def flush():
        fails = check_traces(c, "LineSearch", tr)
        report(c, "LineSearch", tr, fails, dict(enumerate(cases)))
        tr.clear(), cases.clear()

    for name, cfg in CONFIGS.items():
        done = explore(c, exe["lsdrive"], name, cfg, n, budget)
        # longer runs with random decisions
        rnd = [dict(id=k, cfg=dict(cfg, iters=20), script=script(c.rng)) for k in range(3000 if c.thorough else 40)]
        ans, crashes = run_parallel(exe["lsdrive"], rnd, timeout=300)
        for case, rc, err in crashes:
            c.violation("lsdrive/crash", "the line search died or hung (%s)" % rc, dict(case=case, rc=rc, stderr=err))
        done += [(q, ans[q["id"]]) for q in rnd if q["id"] in ans]
        c.count("scripted_%s" % name, len(done))
        for cs, a in done:
            tr.append(dict(case=len(cases), name="%s%s" % (name, cs["script"][:20]), cfg=dict(scripted=True), ev=a["ev"]))
            cases.append(cs)
            for e in a["ev"]:
                if e["e"] == "ls.end":
                    c.count("scripted_end_%s" % (e["c"] if e["r"] == "ok" else e.get("x", e["r"])))
        if len(tr) > 9000:
            flush()
    flush()
    _iterate.linesearch(c, "LineSearch", e2e.linesearch, "C08", 25000 if c.thorough else 350)


main(run, "C08", "model_checking")
