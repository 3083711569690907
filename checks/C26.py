#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import copy, re
import _iterate
from _adapter import *
import gen

MODES = ["first-order", "second-order", "only-second-order"]
NUM = r"\s*(\S+)"
RE = [("f", re.compile(r"^(.) grad_f\[ +(-?\d+)\] =" + NUM + r"( )\s*~" + NUM + r"\s+\[")),
      ("g", re.compile(r"^(.) jac_g \[ *(-?\d+), *(-?\d+)\] =" + NUM + r" (.)  ~" + NUM + r"\s+\[")),
      ("o", re.compile(r"^(.) +obj_hess\[ *(-?\d+), *(-?\d+)\] =" + NUM + r" (.)  ~" + NUM + r"\s+\[")),
      ("h", re.compile(r"^(.) +(-?\d+)-th constr_hess\[ *(-?\d+), *(-?\d+)\] =" + NUM + r" (.)  ~" + NUM + r"\s+\["))]


def num(x):
    return d2s(float(x))


def parse(text, base):
    """the report as events; None: something unknown in it"""
    ev = []
    for l in text.split("\n"):
        if not l.strip() or l.startswith("Starting derivative checker"):
            continue
        m = re.match(r"^Derivative checker detected (\d+) error\(s\)\.$", l)
        if m:
            ev.append(dict(e="done", n=int(m.group(1))))
            continue
        if l.startswith("No errors detected by derivative checker."):
            ev.append(dict(e="done", n=0))
            continue
        for k, r in RE:
            m = r.match(l)
            if m:
                g = m.groups()
                idx = [int(x) - base for x in g[1:-3]]
                ix = {"f": lambda: (-1, idx[0], 0), "g": lambda: (idx[0], idx[1], 0), "o": lambda: (-1, idx[0], idx[1]), "h": lambda: tuple(idx)}[k]()
                ev.append(dict(e="line", fl=g[0] == "*", k="h" if k == "o" else k, r=ix[0], a=ix[1], b=ix[2], ex=num(g[-3]), ap=num(g[-1]), v=g[-2] == "v"))
                break
        else:
            ev.append(dict(e="unknown", text=l))
    if not ev or ev[-1]["e"] != "done":
        ev.append(dict(e="unknown", text="(end)"))
    return ev


def cfg(cs, a):
    p, S = cs["prob"], lambda v: [d2s(x) for x in v]
    o = dict(map(tuple, cs["opts"]))
    return dict(n=p["n"], m=p["m"], mode=o["derivative_test"], first=dict(map(tuple, cs["iopts"])).get("derivative_test_first_index", -2), pert=d2s(cs["pert"]), tol=d2s(dict(map(tuple, cs["nopts"])).get("derivative_test_tol", 1e-4)),
                all=o.get("derivative_test_print_all") == "yes", radius=d2s(dict(map(tuple, cs["nopts"])).get("point_perturbation_radius", 10.)), x0=S(p["x0"]), xl=S(p["xl"]), xu=S(p["xu"]),
                jac=[e[:2] for e in p["jac"]], hes=[e[:2] for e in p["hes"]], tab=a["tab"])


def case(rng, i, p, mode, err=None):
    opts, nopts, iopts, pert = [["derivative_test", mode]], [], [], 1e-8
    if rng.random() < .3:
        opts.append(["derivative_test_print_all", "yes"])
    if rng.random() < .3:
        iopts.append(["derivative_test_first_index", rng.choice([-2, -1, 0, 1, 2, 7])])
    if rng.random() < .3:
        nopts.append(["derivative_test_tol", rng.choice([1e-6, 1e-4, 1e-2, 1., 3.])])
    if rng.random() < .4:
        pert = rng.choice([1e-8, 1e-7, 1e-5, 1e-2])
        nopts.append(["derivative_test_perturbation", pert])
    if rng.random() < .5:
        nopts.append(["point_perturbation_radius", rng.choice([0., 1e-3, 1., 10.])])
    cs = dict(id=i, prob=p, opts=opts, nopts=nopts, iopts=iopts, pert=pert, eg=[], ej=[], eh=[])
    for e in err or []:
        size = rng.choice([1., -2., .5, 1e-3, 1e-9, 1e6, "NaN", "Infinity"] if rng.random() < .5 else [1., -3.])
        if e[0] == "g":
            cs["eg"].append([e[1], -1, size])
        elif e[0] == "j":
            cs["ej"].append([e[1], -1, size])
        elif e[0] == "h":
            cs["eh"].append([e[1], e[2], size])
    return cs


def positions(p):
    return [("g", k) for k in range(p["n"])] + [("j", k) for k in range(len(p["jac"]))] + [("h", k, c) for k in range(len(p["hes"])) for c in range(-1, p["m"])]


def small(rng, n, m):
    return intprob(rng, n, m, [rng.choice([0, 1, 2, 3, 4]) for _ in range(n)], [rng.randrange(5) for _ in range(m)], gen)


def drop(rng, p, which, k):
    """without one entry of the structure"""
    p = copy.deepcopy(p)
    del p[which][k]
    return p


def check(c, cases, flavor):
    exe = build(["deriv"], flavor=flavor)["deriv"]
    ans, crashes = run_parallel(exe, cases, timeout=300)
    for cs, rc, err in crashes:
        c.violation("deriv/crash", "the derivative checker died (%s)" % rc, dict(case=cs, rc=rc, stderr=err))
    tr, by = [], {cs["id"]: cs for cs in cases}
    for i, a in ans.items():
        cs = by[i]
        if "derivative test" in a["rej"]:   # a function could not be evaluated where the test needs it
            c.count("not_evaluable")
            continue
        ev = parse(a["out"], cs["prob"]["base"])   # (inconsistent bounds are only found after the test)
        tr.append(dict(case=i, name="deriv/%d" % i, cfg=cfg(cs, a), ev=[dict(e="ref")] + ev))
        for e in ev:
            if e["e"] == "line":
                c.count("lines_%s_%s" % (e["k"], "wrong" if e["fl"] else "right"))
    report(c, "Deriv", tr, check_traces(c, "Deriv", tr), by)
    if tr:
        c.sample(dict(cfg={k: v for k, v in tr[-1]["cfg"].items() if k != "tab"}, events=tr[-1]["ev"][:4]))


def nodt(cs):
    for r in cs["runs"]:
        r["opts"] = [o for o in r["opts"] if o[0] != "derivative_test"]
    return cs


def not_evaluable(ev):
    """a function could not be evaluated where the test needs it: the run ends"""
    return ev[-1]["e"] == "end" and ev[-1]["ret"] == -100 and not any(e["e"] in ("iter", "final") for e in ev)


def run(c):
    rng = random.Random("C26/%s" % c.seed)
    cases = []
    add = lambda p, mode, err=None: cases.append(case(rng, len(cases), p, mode, err))
    # every position of a wrong or missing entry in small problems, in every mode
    for n in range(1, 4):
        for m in range(0, 3):
            for _ in range(12 if c.thorough else 1):
                p = small(rng, n, m)
                for mode in MODES:
                    add(p, mode)
                    for e in positions(p):
                        add(p, mode, [e])
                    for w in ("jac", "hes"):
                        for k in range(len(p[w])):
                            add(drop(rng, p, w, k), mode)
    # random problems with several errors
    for _ in range(12000 if c.thorough else 900):
        p = small(rng, rng.randint(1, 6), rng.randint(0, 4)) if rng.random() < .4 else gen.problem(rng, kind=rng.choice(["mixed", "convex", "eq", "hard", "nonconvex", "log"]), dup=.2)
        ps = positions(p)
        add(p, rng.choice(MODES), [rng.choice(ps) for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))])
    for lo in range(0, len(cases), 3000):
        check(c, cases[lo:lo + 3000], "asan")
    # finite-difference derivatives are exact up to the perturbation error
    fd = []
    for _ in range(8000 if c.thorough else 800):
        n, m = rng.randint(1, 5), rng.randint(0, 4)
        fd.append(adapter_case(rng, len(fd), [rng.choice([0, 1, 2, 3, 4]) for _ in range(n)], [rng.randrange(5) for _ in range(m)], rng.choice(sorted(TREAT)),
                               dup=0, fd=rng.choice([("jacobian_approximation",), ("jacobian_approximation",), ("gradient_approximation",), ("jacobian_approximation", "gradient_approximation")])))
    adapter(c, fd, "asan", pid="C26", only="C26.")
    # the test has no effect on the following solve
    for lo in range(0, 6000 if c.thorough else 250, 1000):
        k = 1000 if c.thorough else 250
        tw = _iterate.cases_for("C20", rng, k, query=0)
        for cs in tw:
            for r in cs["runs"]:
                r["opts"] = [o for o in r["opts"] if o[0] not in ("derivative_test", "print_level")] + [["derivative_test", rng.choice(MODES)]]
                r["faults"] = []
        _iterate.twins(c, "C26.unaffected", tw, nodt, skip=not_evaluable)


main(run, "C26", "model_checking")
