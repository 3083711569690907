"""Cases for the whole-solver driver (harness/solve.cpp) and projections of its recordings to the trace specifications."""
import gen

MAXEV = 9000  # longer recordings are left out
EVAL = ("f", "gradf", "g", "jac", "hes")


def eff(run, name, dflt):
    v = dflt
    for k, x in run.get("opts", []):
        if k == name:
            v = str(x)
    return v


def random_case(rng, i, pool=None, kinds=None, nopts=(0, 4), query=1, rec=0, scal=True, max_iter=(40, 150), fault=None, stop=0.0, exc=False, base_opts=(), userscal=0.3, **kw):
    k = rng.choice(kinds or gen.KINDS)
    sc = scal and rng.random() < userscal
    p = gen.problem(rng, kind=k, scal="neg" if sc and rng.random() < .5 else sc, lin=rng.random() < 0.2, **kw)
    opts = [["max_iter", str(rng.choice(max_iter))],
            ["nlp_scaling_method", "user-scaling" if sc else rng.choice(["none", "gradient-based"])]]
    opts += [o for o in gen.options(rng, pool or gen.POOL, nopts) if o[0] != "nlp_scaling_method"] + [[o[0], rng.choice(o[1]) if isinstance(o[1], list) else o[1]] for o in base_opts]
    run = dict(opts=opts, query=query, rec=rec, faults=[])
    if fault and rng.random() < fault:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["f", "f", "g", "g", "gradf", "jac", "hes"])
            a = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 40)])
            what = rng.choice(["false", "false", "nan", "inf", "ninf", "exc", "nlpexc", "oom"] if exc else ["false", "nan", "inf", "ninf"])
            if exc and rng.random() < .3:
                kind, what = rng.choice([("iter", "exc"), ("iter", "nlpexc"), ("info", "false"), ("bounds", "false"), ("start", "false"), ("jacS", "false"), ("hesS", "false"), ("bounds", "nlpexc"), ("start", "exc")])
                a = rng.choice([1, 1, 2, 5]) if kind == "iter" else rng.choice([1, 1, 2])
            run["faults"].append(dict(kind=kind, k=a, what=what, pos=rng.randrange(6), to=rng.choice([a, a, a + 1, a + 3, a + 10, -1])))
            if kind in ("jac", "hes") and what in ("nan", "inf", "ninf"):
                opts.append(["check_derivatives_for_naninf", "yes"])
    if rng.random() < stop:
        run["stop"] = rng.choice([1, 2, rng.randint(1, 10), rng.randint(1, 40)])
    return dict(id=i, probs=[p], runs=[run], kind=k)


def prob_of(case, r):
    return ([q["prob"] for q in case["runs"][:r + 1] if "prob" in q] or [0])[-1]


def cfg_of(case, r, prob=None):
    run = case["runs"][r]
    cur = {}
    for q in case["runs"][:r + 1]:
        for k in q.get("unset", []):
            cur.pop(k, None)
        for o in q.get("opts", []):
            cur[o[0]] = o[1]
    allruns = dict(opts=list(cur.items()))
    p = prob or case["probs"][prob_of(case, r)]
    check = eff(allruns, "derivative_test", "none") != "none"
    fd = eff(allruns, "jacobian_approximation", "exact") != "exact" or eff(allruns, "gradient_approximation", "exact") != "exact"
    return dict(check=check, resolve=run.get("how", "opt") == "reopt", fixed=any(a == b for a, b in zip(p["xl"], p["xu"])), m=p["m"],
                honor=eff(allruns, "honor_original_bounds", "no") == "yes", fd=fd, fdjac=eff(allruns, "jacobian_approximation", "exact") != "exact",
                limmem=eff(allruns, "hessian_approximation", "exact") == "limited-memory", nanchk=eff(allruns, "check_derivatives_for_naninf", "no") == "yes",
                warm=eff(allruns, "warm_start_init_point", "no") == "yes")


def protocol_events(evs):
    out = []
    for e in evs:
        k = e["e"]
        if k in EVAL:
            o = {a: e[a] for a in ("e", "x", "nx", "ok", "fin", "fv", "q", "dim")}
            if k == "hes":
                o["l"], o["of"] = e["l"], e["of"]
        elif k == "iter":
            o = dict(e=k, mode=e["mode"], it=e["it"], ret=e["ret"], xi=e.get("xi", 0))
        elif k == "exc":
            o = dict(e=k, kind=e.get("kind", ""), what=e.get("what", e.get("m")))
        elif k == "final":
            o = dict(e=k, st=e["st"], x=e["x"], dim=e["dim"])
        elif k == "end":
            o = {a: e[a] for a in ("e", "ret", "timer", "nfin", "iters", "n") if a in e}
        elif k in ("info", "bounds", "scaling", "varlin", "conlin", "nnl", "nllist", "start", "jacS", "hesS"):
            o = e
        else:
            continue
        out.append(o)
    return out


def traces(cases, ans, project, tags=()):
    out = []
    for cs in cases:
        a = ans.get(cs["id"])
        if a is None:
            continue
        for r, run in enumerate(a["runs"]):
            t = project(cs, r, run["ev"], a)
            if t and len(t["ev"]) <= MAXEV:
                t.update(case=cs["id"], name="%s/%s[%d]" % (cs.get("kind"), cs["id"], r))
                out.append(t)
    return out


def protocol(cs, r, ev, a):
    c = cfg_of(cs, r)
    if r and a["runs"][r - 1]["ev"] and a["runs"][r - 1]["ev"][0]["e"] == "end" and any(e["e"] == "exc" and "ReOptimizeNLP called before" in e.get("m", e.get("what", "")) for e in ev):
        return None   # re-optimization where the first optimization was refused: documented exception
    if c["check"] and not c["resolve"]:
        # what the derivative checker does before the run is the subject of C26
        k = [i for i, e in enumerate(ev) if e["e"] == "info"]
        if len(k) < 2:
            return None
        ev = ev[k[1]:]
    return dict(cfg=c, ev=protocol_events(ev))


MISC = [["jacobian_approximation", "finite-difference-values"], ["derivative_test", "first-order"], ["derivative_test", "second-order"], ["derivative_test", "only-second-order"],
        ["gradient_approximation", "finite-difference-values"], ["warm_start_init_point", "yes"], ["hessian_approximation", "limited-memory"], ["hessian_approximation_space", "all-variables"],
        ["point_perturbation_radius", "0"], ["print_info_string", "yes"], ["inf_pr_output", "internal"], ["timing_statistics", "yes"], ["skip_finalize_solution_call", "no"]]


def seq_case(rng, i, nruns=(2, 3), misc=0.3, **kw):
    """several solves on one application: other problems, re-optimization with changed data, warm starts"""
    a = random_case(rng, i, **kw)
    for r in range(1, rng.randint(*nruns)):
        how = rng.random()
        if how < 0.35:
            b = random_case(rng, i, **kw)
            a["probs"].append(b["probs"][0])
            run = b["runs"][0]
            run.update(prob=len(a["probs"]) - 1)
            run["unset"] = sorted({o[0] for q in a["runs"] for o in q["opts"]})
            if "scal" not in a["probs"][-1]:
                run["opts"] = [o for o in run["opts"] if o != ["nlp_scaling_method", "user-scaling"]]
        else:
            pr = prob_of(a, len(a["runs"]) - 1)
            p = a["probs"][pr]
            run = dict(how="reopt" if how > 0.6 else "opt", query=a["runs"][-1]["query"], rec=a["runs"][-1]["rec"], faults=[],
                       opts=[o for o in gen.options(rng, {k: gen.POOL[k] for k in ("tol", "max_iter", "mu_init", "mu_strategy", "acceptable_tol", "bound_mult_init_method", "max_soc", "alpha_for_y")}, (0, 2))])
            mod = {}
            if rng.random() < .4:
                mod["x0"] = [v + rng.randint(-8, 8) / 8 for v in p["x0"]]
            if rng.random() < .3:
                mod["obj"] = p["obj"] + [[rng.randint(-8, 8) / 4, [rng.randrange(p["n"])]]]
            if rng.random() < .3 and not any(x == y for x, y in zip(p["xl"], p["xu"])):
                mod["xl"] = [v - rng.randint(0, 2) / 4 if v > -1e19 else v for v in p["xl"]]
                mod["xu"] = [v + rng.randint(0, 2) / 4 if v < 1e19 else v for v in p["xu"]]
            if mod:
                run["mod"] = mod
            if rng.random() < .3 and not mod:
                run["from_last"] = True
                run["opts"] = run["opts"] + [["warm_start_init_point", "yes"]]
        if rng.random() < kw.get("stop", 0):
            run["stop"] = rng.randint(1, 6)
        a["runs"].append(run)
    return a


def warm_case(rng, i, **kw):
    """a start from given primal and dual data"""
    a = random_case(rng, i, **kw)
    p = a["probs"][0]
    p["zl0"] = [rng.choice([1.0, .5, 0., rng.randint(0, 40) / 8]) for _ in range(p["n"])]
    p["zu0"] = [rng.choice([1.0, .5, 0., rng.randint(0, 40) / 8]) for _ in range(p["n"])]
    p["lam0"] = [rng.choice([0., 1., -2., rng.randint(-40, 40) / 8]) for _ in range(p["m"])]
    a["runs"][0]["opts"] += [["warm_start_init_point", "yes"]]
    return a


def misc_case(rng, i, **kw):
    a = random_case(rng, i, **kw)
    o = [list(x) for x in rng.sample(MISC, rng.choice([1, 1, 2]))]
    if ["warm_start_init_point", "yes"] in o:
        p = a["probs"][0]
        p["zl0"] = [rng.choice([1.0, .5, 0.]) for _ in range(p["n"])]
        p["zu0"] = [rng.choice([1.0, .5, 0.]) for _ in range(p["n"])]
        p["lam0"] = [rng.choice([0., 1., -2.]) for _ in range(p["m"])]
    a["runs"][0]["opts"] += o
    return a


# ------------------------------------------------------------------ Iterate.tla
def d2s(v):
    return v if isinstance(v, str) else repr(float(v))


def final_prob(case, r):
    """the problem data of run r (with the modifications of the runs before)"""
    p = None
    k = -1
    for q in case["runs"][:r + 1]:
        if "prob" in q or p is None:
            k = q.get("prob", 0)
            p = dict(case["probs"][k])
        p.update(q.get("mod", {}))
    return p


def effopts(case, r):
    cur = {}
    for q in case["runs"][:r + 1]:
        for k in q.get("unset", []):
            cur.pop(k, None)
        for o in q.get("opts", []):
            cur[o[0]] = str(o[1])
    return cur


TREAT = {"make_parameter": "p", "make_parameter_nodual": "nd", "make_constraint": "c", "relax_bounds": "r"}


def iterate_cfg(cs, r):
    p, o = final_prob(cs, r), effopts(cs, r)
    n, m = p["n"], p["m"]
    g = lambda k, d: o.get(k, d)
    meth = g("nlp_scaling_method", "gradient-based")
    bp, bf = g("bound_push", "0.01"), g("bound_frac", "0.01")
    sc = p.get("scal", {}) if meth == "user-scaling" else {}
    S = lambda v: [d2s(x) for x in v]
    return dict(n=n, m=m, xl=S(p["xl"]), xu=S(p["xu"]), gl=S(p["gl"]), gu=S(p["gu"]), treat=TREAT[g("fixed_variable_treatment", "make_parameter")],
                meth=meth, so=d2s(sc.get("obj", 1.)), sx=S(sc.get("x", [1.] * n)), sg=S(sc.get("g", [1.] * m)), osf=g("obj_scaling_factor", "1"),
                smax=g("nlp_scaling_max_gradient", "100"), smin=g("nlp_scaling_min_value", "1e-8"), stgo=g("nlp_scaling_obj_target_gradient", "0"), stgc=g("nlp_scaling_constr_target_gradient", "0"),
                brf=g("bound_relax_factor", "1e-8"), cvt=g("constr_viol_tol", "1e-4"), honor=g("honor_original_bounds", "no") == "yes",
                ksig=g("kappa_sigma", "1e10"), dtol=g("dual_inf_tol", "1"), ptol=g("constr_viol_tol", "1e-4"), ctol=g("compl_inf_tol", "1e-4"), mut=g("mu_target", "0"),
                aiter=int(g("acceptable_iter", "15")), atol=g("acceptable_tol", "1e-6"), adtol=g("acceptable_dual_inf_tol", "1e10"), aptol=g("acceptable_constr_viol_tol", "0.01"),
                actol=g("acceptable_compl_inf_tol", "0.01"), aobj=g("acceptable_obj_change_tol", "1e20"), div=g("diverging_iterates_tol", "1e20"), maxit=int(g("max_iter", "3000")),
                fd=g("jacobian_approximation", "exact") != "exact" or g("gradient_approximation", "exact") != "exact", fdg=g("gradient_approximation", "exact") != "exact",
                zskip=g("fixed_variable_treatment", "make_parameter") == "make_parameter" and any(a == b for a, b in zip(p["xl"], p["xu"])) and False,
                bp=bp, bf=bf, sbp=g("slack_bound_push", bp), sbf=g("slack_bound_frac", bf), bmi=g("bound_mult_init_method", "constant"), bmv=g("bound_mult_init_val", "1"), mui=g("mu_init", "0.1"),
                cmax=g("constr_mult_init_max", "1000"), lsp=g("least_square_init_primal", "no") == "yes", lsd=g("least_square_init_duals", "no") == "yes", warm=g("warm_start_init_point", "no") == "yes",
                wbp=g("warm_start_bound_push", bp), wbf=g("warm_start_bound_frac", bf), wsp=g("warm_start_slack_bound_push", bp), wsf=g("warm_start_slack_bound_frac", bf), wmp=g("warm_start_mult_bound_push", "1e-3"),
                wmax=g("warm_start_mult_init_max", "1e6"), wtmu=g("warm_start_target_mu", "0"), wall=g("warm_start_entire_iterate", "no") == "yes", mehrotra=g("mehrotra_algorithm", "no") == "yes",
                kd=g("kappa_d", "1e-5"), norm1=g("line_search_method", "filter") == "filter" and g("constraint_violation_norm_type", "1-norm") == "1-norm",
                plain=g("accept_every_trial_step", "no") == "no")


def iterate(cs, r, ev, a, cfg=None):
    """query bits 1+2+4+8+16+32 needed"""
    if cs["runs"][r].get("how") == "reopt" and iterate_cfg(cs, r)["meth"] == "gradient-based":
        return None   # the scaling factors are those of the first optimization
    if eff(dict(opts=list(effopts(cs, r).items())), "derivative_test", "none") != "none":
        k = [i for i, e in enumerate(ev) if e["e"] == "info"]
        if len(k) < 2:
            return None
        ev = ev[k[1]:]
    out, seen, it, nls = [], set(), False, 0 if cs["runs"][r].get("rec") else -1
    for e in ev:
        k = e["e"]
        if k == "ls.find" and e["L"] == 0 and nls >= 0:
            nls += 1
        elif k == "iter" and e["mode"] == 0 and nls > 0:
            nls = 0
        if k in EVAL:
            if it and e["x"] not in seen and not e["q"]:
                seen.add(e["x"])
                out.append(dict(e="pt", x=a["xs"][e["x"] - 1]))
        elif k == "iter":
            if not (e.get("cur", {}).get("ok") and e.get("vio", {}).get("ok")):
                if "cur" not in e:
                    continue
            it = True
            out.append({f: v for f, v in e.items() if f not in ("ic", "xi")})
        elif k == "start" and "udf" in e:
            out.append({f: e[f] for f in ("e", "udf", "uj", "ufin", "x0", "zl0", "zu0", "lam0", "ug", "iz", "il")})
        elif k == "final":
            out.append({f: (a["xs"][v - 1] if f == "x" else v) for f, v in e.items()} | dict(nls=nls))
        elif k == "end":
            out.append(dict(e=k, ret=e["ret"], after=e["after"]))
    return dict(cfg=iterate_cfg(cs, r), ev=out)


# ------------------------------------------------------------------ line search (LsFilter.tla, LineSearch.tla)
FL = {"fl.new": None, "fl.init": None, "fl.begin": None, "fl.check": None, "fl.update": None, "fl.amin": None, "fl.wdstart": None, "fl.wdstop": None, "fl.prepresto": None, "fl.reset": None}


def lsfilter(cs, r, ev, a):
    out = [e for e in ev if e["e"] in FL]
    if not out or out[0]["e"] != "fl.new":
        return None
    return dict(cfg=dict(x=0), ev=out)


def barrier(cs, r, ev, a):
    out = [e if e["e"].startswith("mu.") else {k: e[k] for k in ("e", "L", "r") if k in e} for e in ev if e["e"].startswith("mu.") or e["e"] in ("ls.new", "ls.reset", "ls.rigorous")]
    return dict(cfg=dict(x=0), ev=out) if out else None


def linesearch(cs, r, ev, a):
    out = []
    for e in ev:
        k = e["e"]
        if k.startswith("fl.") and k != "fl.begin" or k.startswith("ls."):
            e = dict(e)
            e.pop("p", None)
            out.append(e)
        elif k in ("resto.start", "resto.end"):
            out.append(dict(e=k, L=0, r=e.get("r", "")))
    if not out or out[0]["e"] != "fl.new":
        return None
    return dict(cfg=dict(scripted=False), ev=out)


def restoration(cs, r, ev, a):
    out = []
    for e in ev:
        k = e["e"]
        if k in FL:
            if e["L"] == 0:
                out.append({f: v for f, v in e.items() if f != "p"})
        elif k in ("resto.new", "resto.start", "resto.end", "rc.new", "rc", "rr"):
            out.append(e)
        elif k == "ls.end" and e["L"] == 1:
            out.append({f: e[f] for f in ("e", "r", "x") if f in e})
        elif k == "mu.update" and e["L"] == 1:
            out.append({f: e[f] for f in ("e", "r")})
        elif k == "iter" and e["mode"] == 1:
            out.append(dict(e="usr", ret=e["ret"]))
    return dict(cfg=dict(x=0), ev=out) if any(e["e"] == "resto.start" for e in out) else None
