"""What the user is told about every iterate, validated against Iterate.tla (C->S); twin runs against Twin.tla."""
from _trace import *
import copy
import e2e

P = gen.POOL
POOLS = {
    "C05": {k: P[k] for k in ("tol", "max_iter", "acceptable_tol", "acceptable_iter", "mu_strategy", "bound_relax_factor", "hessian_approximation", "honor_original_bounds", "nlp_scaling_method", "line_search_method")} | {
        "acceptable_iter": ["1", "2", "3"], "acceptable_tol": ["1e-1", "1e-3", "10"], "acceptable_obj_change_tol": ["1e-2", "1", "1e20"], "acceptable_dual_inf_tol": ["1e-2", "1", "1e10"],
        "acceptable_constr_viol_tol": ["1e-2", "1"], "acceptable_compl_inf_tol": ["1e-2", "1"], "dual_inf_tol": ["1", "1e-6", "1e-10"], "constr_viol_tol": ["1e-4", "1e-9"], "compl_inf_tol": ["1e-4", "1e-8"],
        "diverging_iterates_tol": ["10", "1e3", "1e20"], "mu_target": ["1e-3"], "s_max": ["100"]},
    "C06": {k: P[k] for k in ("mu_strategy", "bound_relax_factor", "honor_original_bounds", "kappa_sigma", "mu_init", "fixed_variable_treatment", "mehrotra_algorithm", "accept_every_trial_step",
                              "start_with_resto", "slack_bound_push", "max_soc", "corrector_type", "bound_mult_init_method", "line_search_method", "watchdog_shortened_iter_trigger", "max_iter")} | {
        "bound_push": ["1e-2", "1e-8"], "bound_frac": ["1e-2", "0.5"], "slack_move": ["1.8189894035458565e-12"], "tau_min": ["0.99", "0.1"]},
    "C20": P | {"obj_scaling_factor": ["-1", "3"]}, "C22": {k: v for k, v in P.items() if k not in ("hessian_approximation",)} | {
        "nlp_scaling_max_gradient": ["100", "1", "10"], "nlp_scaling_min_value": ["1e-8", "0.5"], "nlp_scaling_obj_target_gradient": ["0", "10"], "nlp_scaling_constr_target_gradient": ["0", "10"], "obj_scaling_factor": ["1", "-1", "3"]},
}
LSPOOL = {k: v for k, v in P.items() if k not in ("line_search_method",)} | {
    "max_filter_resets": ["0", "1", "2", "5"], "filter_reset_trigger": ["1", "2", "5"], "theta_max_fact": ["1e4", "2", "100"], "theta_min_fact": ["1e-4", "1e2"], "obj_max_inc": ["5", "1.5"],
    "gamma_theta": ["1e-5", "1e-2"], "gamma_phi": ["1e-8", "1e-2"], "eta_phi": ["1e-8", "0.4"], "delta": ["1", "1e-4", "1e3"], "s_phi": ["2.3", "1.5"], "s_theta": ["1.1", "2"], "alpha_min_frac": ["0.05", "0.5"],
    "kappa_d": ["1e-5", "0", "1e-2"], "alpha_red_factor": ["0.5", "0.25", "0.9"], "watchdog_trial_iter_max": ["1", "3"], "accept_after_max_steps": ["-1", "1", "3"], "max_soft_resto_iters": ["0", "1", "10"],
    "soft_resto_pderror_reduction_factor": ["0.9999", "0", "0.5"], "tiny_step_tol": ["2.22e-15", "1e-3", "0"], "tiny_step_y_tol": ["1e-2", "1e2"], "kappa_soc": ["0.99", "2"], "soc_method": ["0", "1"]}
POOLS["C07"] = LSPOOL
POOLS["C08"] = LSPOOL | {"alpha_for_y": ["primal", "bound-mult", "min", "max", "full", "primal-and-full", "dual-and-full"], "watchdog_shortened_iter_trigger": ["0", "1", "2"], "start_with_resto": ["yes"],
                         "expect_infeasible_problem": ["yes"], "accept_every_trial_step": ["yes"], "max_soc": ["0", "1", "4"], "corrector_type": ["none", "affine", "primal-dual"], "magic_steps": ["yes"]}
POOLS["C09"] = {k: v for k, v in LSPOOL.items() if k != "alpha_for_y"} | {"start_with_resto": ["yes"], "expect_infeasible_problem": ["yes"], "required_infeasibility_reduction": ["0", "0.5", "0.01", "0.99"], "resto.required_infeasibility_reduction": ["0", "0.3"],
    "max_resto_iter": ["0", "1", "5", "20"], "resto_failure_feasibility_threshold": ["0", "1", "0.1", "10", "1e-3"], "bound_mult_reset_threshold": ["0", "1", "10", "1e3", "1e8"], "constr_mult_reset_threshold": ["0", "10", "1e3", "1e8"],
    "resto_penalty_parameter": ["1000", "1", "10"], "resto_proximity_weight": ["1", "0", "100"], "soft_resto_pderror_reduction_factor": ["0", "0.9999"], "acceptable_iter": ["0", "1", "2", "15"], "acceptable_tol": ["1e-6", "1e-2", "10"],
    "resto.acceptable_iter": ["1", "0"], "resto.acceptable_tol": ["1e-2", "1e-4"], "resto.tol": ["1e-3", "1e-10"], "resto.tiny_step_tol": ["1e-3", "0.1"], "resto.mu_init": ["1"], "acceptable_obj_change_tol": ["1e20", "1e-1"], "constr_viol_tol": ["1e-4", "1e-9", "1"], "tol": ["1e-8", "1e-3", "1e-10"],
    "resto.max_iter": ["30"], "max_iter": ["10", "60", "150"], "mu_target": ["0", "1e-3"], "diverging_iterates_tol": ["1e20", "1e3"], "evaluate_orig_obj_at_resto_trial": ["no"], "expect_infeasible_problem_ctol": ["1e-3", "1"], "expect_infeasible_problem_ytol": ["1e8", "10"],
    "tiny_step_tol": ["2.22e-15", "1e-3", "0"], "resto.theta_max_fact": ["10"], "max_soc": ["0", "4"]}
POOLS["C04"] = {k: P[k] for k in P if k not in ("nlp_scaling_method",)} | {"max_iter": ["20", "150"]}
POOLS["C10"] = {k: v for k, v in P.items() if k not in ("mehrotra_algorithm", "line_search_method")} | {
    "mu_strategy": ["monotone", "adaptive", "adaptive"], "adaptive_mu_globalization": ["obj-constr-filter", "kkt-error", "never-monotone-mode"], "mu_oracle": ["loqo", "probing", "quality-function"],
    "fixed_mu_oracle": ["average_compl", "loqo", "probing", "quality-function"], "adaptive_mu_kkterror_red_iters": ["0", "1", "4"], "adaptive_mu_kkterror_red_fact": ["0.9999", "0.5", "0.01"],
    "adaptive_mu_safeguard_factor": ["0", "1e-3", "0.5"], "adaptive_mu_restore_previous_iterate": ["yes"], "adaptive_mu_monotone_init_factor": ["0.8", "0.01", "5"], "filter_margin_fact": ["1e-5", "0.5"],
    "filter_max_margin": ["1", "1e-4"], "mu_max_fact": ["1e3", "2"], "mu_max": ["1e5", "1", "1e-2"], "mu_min": ["1e-11", "1e-5", "1e-3"], "mu_target": ["0", "1e-3"], "barrier_tol_factor": ["10", "1", "1e3"],
    "mu_linear_decrease_factor": ["0.2", "0.9", "0.01"], "mu_superlinear_decrease_power": ["1.5", "1.1", "1.9"], "mu_allow_fast_monotone_decrease": ["yes", "no"], "mu_init": ["0.1", "1e-10", "1e-4", "10"],
    "tau_min": ["0.99", "0.1", "0.99999"], "quality_function_norm_type": ["1-norm", "2-norm-squared", "max-norm", "2-norm"], "quality_function_centrality": ["none", "log", "reciprocal", "cubed-reciprocal"],
    "quality_function_balancing_term": ["none", "cubic"], "compl_inf_tol": ["1e-4", "1e-10"], "tol": ["1e-8", "1e-4", "1e-12"], "tiny_step_tol": ["2.22e-15", "1e-3", "1e-1"], "tiny_step_y_tol": ["1e-2", "1e2"], "s_max": ["100", "1"]}
POOLS["C21"] = {k: v for k, v in P.items() if k not in ("mehrotra_algorithm",)} | {
    "bound_push": ["0.01", "1e-8", "1"], "bound_frac": ["0.01", "0.4"], "slack_bound_push": ["0.01", "1e-6"], "slack_bound_frac": ["0.01", "0.3"], "constr_mult_init_max": ["1000", "0", "1"],
    "bound_mult_init_val": ["1", "1e-3"], "bound_mult_init_method": ["constant", "mu-based"], "mu_init": ["0.1", "1e-4"], "warm_start_bound_push": ["1e-8", "0.1"], "warm_start_bound_frac": ["1e-8", "0.3"],
    "warm_start_slack_bound_push": ["1e-8", "0.1"], "warm_start_mult_bound_push": ["1e-8", "1e-3", "1"], "warm_start_mult_init_max": ["1e6", "1", "-1"], "obj_scaling_factor": ["1", "3", "-1"], "max_iter": ["3", "50"]}
POOLS["C18"] = {k: v for k, v in P.items() if k != "nlp_scaling_method"} | {"nlp_scaling_method": ["none"]}
# acceptability comes and goes with the change of the objective function
FLIP = [(o, "1e20") for o in ("acceptable_tol", "acceptable_dual_inf_tol", "acceptable_constr_viol_tol", "acceptable_compl_inf_tol")] + [
    ("acceptable_obj_change_tol", ["0.003", "0.02", "0.1", "0.3", "0.7", "1"]), ("acceptable_iter", ["2", "3", "3", "4", "5"])]
NEG = [("obj_scaling_factor", ["-1", "-3", "3"]), ("fixed_variable_treatment", ["make_parameter"])]
# gradient-based scaling at its limits
STEEP = [("nlp_scaling_method", "gradient-based"), ("nlp_scaling_max_gradient", ["1e-2", "1", "0.1"]), ("nlp_scaling_min_value", ["0.5", "1e-2", "0.1", "1e-8"])]
GEN = {"C18": [(.7, e2e.random_case, dict(fixed=.3, userscal=0, base_opts=[("nlp_scaling_method", "none")])), (.3, e2e.misc_case, dict(fixed=.3, userscal=0, base_opts=[("nlp_scaling_method", "none")]))],
       "C07": [(.5, e2e.random_case, dict(fault=.15, stop=.03, kinds=["hard", "infeas", "nonconvex", "log", "mixed"])), (.4, e2e.random_case, {}), (.1, e2e.seq_case, {})],
       "C08": [(.6, e2e.random_case, dict(fault=.2, stop=.03, kinds=["hard", "infeas", "nonconvex", "log", "mixed"])), (.3, e2e.random_case, {}), (.1, e2e.seq_case, {})],
       "C10": [(.45, e2e.random_case, dict(fault=.1, base_opts=[("mu_strategy", "adaptive")], kinds=["hard", "infeas", "nonconvex", "log", "mixed"])), (.45, e2e.random_case, {}), (.1, e2e.seq_case, {})],
       "C09": [(.5, e2e.random_case, dict(fault=.1, stop=.1, kinds=["hard", "infeas", "eq", "nonconvex", "mixed"])), (.3, e2e.random_case, dict(fault=.1, stop=.05, base_opts=[("start_with_resto", "yes")])),
               (.1, e2e.random_case, dict(base_opts=[("expect_infeasible_problem", "yes")], kinds=["infeas", "hard"])), (.1, e2e.seq_case, dict(kinds=["infeas", "hard", "eq"]))],
       "C04": [(.8, e2e.random_case, dict(stop=.2)), (.2, e2e.seq_case, {})],
       "C05": [(.6, e2e.random_case, dict(stop=.1)), (.15, e2e.random_case, dict(base_opts=FLIP)), (.25, e2e.seq_case, {})],
       "C21": [(.3, e2e.random_case, dict(scal=1)), (.4, e2e.warm_case, dict(scal=1)), (.3, e2e.seq_case, dict(scal=1))],
       "C06": [(.8, e2e.random_case, dict(fixed=.2)), (.2, e2e.seq_case, {})],
       "C20": [(.55, e2e.random_case, dict(fixed=.2)), (.05, e2e.random_case, dict(fixed=.5, base_opts=NEG)), (.2, e2e.seq_case, {}), (.2, e2e.misc_case, {})],
       "C22": [(.65, e2e.random_case, dict(scal=1)), (.15, e2e.random_case, dict(userscal=0, base_opts=STEEP)), (.1, e2e.seq_case, {}), (.1, e2e.misc_case, {})]}


def cases_for(pid, rng, k, query=63):
    cases = []
    for i in range(k):
        x = rng.random()
        for share, g, kw in GEN[pid]:
            x -= share
            if x < 0:
                break
        kw = dict(kw)
        if kw.get("scal") == 1:
            kw["scal"] = True
            kw["userscal"] = .6
        cases.append(g(rng, i, pool=POOLS[pid], nopts=(1, 10) if pid == "C10" else (0, 8) if pid == "C09" else (0, 5), query=query, **kw))
    return cases


def linesearch(c, module, project, pid, n, query=0):
    """whole runs recorded at the line search"""
    rng = random.Random("%s/ls/%s" % (pid, c.seed))
    for lo in range(0, n, 1500):
        cases = cases_for(pid, rng, min(1500, n - lo), query=query)
        for cs in cases:
            for q in cs["runs"]:
                q["rec"] = 1
        ans = solve_all(c, cases)
        tr = e2e.traces(cases, ans, project)
        fails = check_traces(c, module, tr)
        report(c, module, tr, fails, {cs["id"]: cs for cs in cases}, only=pid + ".")
        for t in tr:
            for e in t["ev"]:
                k = e["e"] + ("" if "L" not in e else "/%d" % e["L"])
                if e["e"] in ("fl.check", "fl.update", "ls.end", "resto.end", "mu.update", "rc"):
                    k += "/" + str(e.get("r", e.get("c"))) + (" " + e["x"] if e["e"] == "rc" and e["x"] else "")
                if e["e"] == "mu.update" and "free0" in e:
                    k += "/%s%s%s" % ("free" if e["free0"] else "fixed", "-free" if e["free"] else "-fixed", "-changed" if e["mu"] != e["mu0"] else "")
                c.count("ev_" + k)
    if tr:
        c.sample(dict(events=tr[0]["ev"][:6]))


def run(c, pid, n, asan=0):
    for flavor, k in (("std", n), ("asan", asan)):
        if not k:
            continue
        rng = random.Random("%s/%s/%s" % (pid, c.seed, flavor))
        for lo in range(0, k, 1000):
            cases = cases_for(pid, rng, min(1000, k - lo))
            if pid == "C05":
                for cs in cases:
                    for q in cs["runs"]:
                        q["rec"] = 1   # line searches are seen
            ans = solve_all(c, cases, flavor=flavor)
            tr = e2e.traces(cases, ans, e2e.iterate)
            fails = check_traces(c, "Iterate", tr)
            report(c, "Iterate", tr, fails, {cs["id"]: cs for cs in cases}, only=pid + ".")
            for t in tr:
                for e in t["ev"]:
                    if e["e"] == "iter":
                        c.count("iterates_resto" if "rin" in e else "iterates_regular" if "in" in e else "iterates_other")
                    elif e["e"] == "final":
                        c.count("final_%s" % e["st"])
        if tr:
            c.sample(dict(flavor=flavor, cfg=tr[0]["cfg"], events=tr[0]["ev"][:3]))


SHOW = ("e", "mode", "it", "obj", "pr", "du", "mu", "dn", "reg", "ad", "ap", "ls", "st", "ret", "zl", "zu", "g", "lam")


def show(ev, a):
    out = []
    for e in ev:
        if e["e"] in ("iter", "final", "end"):
            o = {k: e[k] for k in SHOW if k in e}
            if e["e"] == "final":
                o["x"] = a["xs"][e["x"] - 1]
            out.append(o)
    return out


def twin_traces(clause, pairs):
    """pairs: (case id, name, events, events[, more configuration])"""
    tr = []
    for cid, name, l, r, *cfg in pairs:
        n = max(len(l), len(r))
        tr.append(dict(case=cid, name=name, cfg=dict(cfg[0] if cfg else {}, clause=clause), ev=[dict(e="pair", l=l[k] if k < len(l) else dict(none=True), r=r[k] if k < len(r) else dict(none=True)) for k in range(n)]))
    return tr


def twins(c, clause, cases, other, flavor="std", skip=None, cfg=None):
    """cases against the cases `other` makes of them (one for one)"""
    alt = [other(copy.deepcopy(cs)) for cs in cases]
    a, b = solve_all(c, cases, flavor=flavor), solve_all(c, alt, flavor=flavor)
    pairs = []
    for cs in cases:
        if cs["id"] in a and cs["id"] in b:
            ra, rb = a[cs["id"]]["runs"], b[cs["id"]]["runs"]
            for k in range(min(len(ra), len(rb))):
                if skip and skip(ra[k]["ev"]):
                    c.count("skipped")
                    continue
                pairs.append((cs["id"], "%s/%s[%d]" % (cs.get("kind"), cs["id"], k), show(ra[k]["ev"], a[cs["id"]]), show(rb[k]["ev"], b[cs["id"]]), cfg(cs) if cfg else {}))
    tr = twin_traces(clause, pairs)
    fails = check_traces(c, "Twin", tr)
    report(c, "Twin", tr, fails, {cs["id"]: cs for cs in cases})
