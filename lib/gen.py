"""Random user problems and option sets for the whole-solver checks (all randomness from the given rng)."""


def hes_pattern(fs, n):
    H = set()
    for f in fs:
        for t in f:
            vs, fn = t[1], (t[2] if len(t) > 2 else "")
            cnt = {}
            for v in vs:
                cnt[v] = cnt.get(v, 0) + 1
            for i in cnt:
                for j in cnt:
                    if i >= j and (fn or i != j or cnt[i] > 1):
                        H.add((i, j))
    return sorted(H)


def jac_pattern(con):
    return [(i, j) for i, f in enumerate(con) for j in sorted({v for t in f for v in t[1]})]


def fval(f, x):
    import math
    s = 0.0
    for t in f:
        p = 1.0
        for v in t[1]:
            p *= x[v]
        fn = t[2] if len(t) > 2 else ""
        p += t[3] if len(t) > 3 else 0
        try:
            a = {"": lambda: p, "exp": lambda: math.exp(p), "log": lambda: math.log(p), "sqrt": lambda: math.sqrt(p),
                 "inv": lambda: 1 / p, "sin": lambda: math.sin(p), "huber": lambda: math.sqrt(1 + p * p)}[fn]()
        except (ValueError, ZeroDivisionError, OverflowError):
            a = float("nan")
        s += t[0] * a
    return s


def split(rng, ents, dup):
    out = []
    for (i, j) in ents:
        if rng.random() < dup:
            w = rng.choice([0.25, 0.5, 2.0])
            out += [[i, j, w], [i, j, 1 - w]]
        else:
            out.append([i, j, 1.0])
    rng.shuffle(out)
    return out


def q(rng, lo, hi):
    return rng.randint(int(lo * 8), int(hi * 8)) / 8.0


def fn(rng, n, deg=2, terms=3, fns=("", "", "exp", "huber", "sin"), amp=2):
    f = []
    for _ in range(rng.randint(1, terms)):
        vs = [rng.randrange(n) for _ in range(rng.randint(1, deg))]
        k = rng.choice(fns)
        c = q(rng, -amp, amp) or 1.0
        if k in ("exp",):
            vs = vs[:1]
            c /= 4
        f.append([c, vs, k, 0.0])
    return f


def problem(rng, n=None, m=None, kind="mixed", base=None, dup=0.1, fixed=0.12, scal=False, lin=False, domain=None):
    """kind: mixed (mostly solvable), hard (needs restoration often), infeas, convex, eq, log (domain errors)"""
    n = n or rng.randint(1, 6)
    # variables
    xs = [q(rng, -3, 3) for _ in range(n)]
    if kind == "log":
        xs = [abs(v) + 0.5 for v in xs]
    obj = []
    for i in range(n):
        c = abs(q(rng, 0.25, 3)) or 1.0
        a = q(rng, -4, 4)
        obj += [[c, [i, i]], [-2 * c * a, [i]]]
    if kind != "convex":
        obj += fn(rng, n, 2, 2, fns=("", "huber", "sin", "exp"), amp=1)
    if kind == "nonconvex":
        obj += [[-q(rng, 2, 6), [rng.randrange(n)], "huber", 0.0] for _ in range(3)] + [[q(rng, -6, 6), [rng.randrange(n), rng.randrange(n)]] for _ in range(3)]
        obj += [[0.125, [i, i, i, i]] for i in range(n)]
    if kind == "log":
        obj += [[-0.5, [rng.randrange(n)], rng.choice(["log", "sqrt"]), 0.0] for _ in range(2)]
    m = m if m is not None else rng.randint(0, n if kind != "eq" else max(1, n - 1))
    con, gl, gu = [], [], []
    neq = 0
    for i in range(m):
        f = fn(rng, n, 1 if kind == "convex" else 2, 3, fns=("",) if kind == "convex" else ("", "", "exp", "sin") if kind != "log" else ("", "", "log", "sqrt", "inv"))
        v = fval(f, xs)
        if not (abs(v) < 1e6):
            f, v = [[1.0, [0]]], xs[0]
        con.append(f)
        t = rng.random()
        if (t < 0.4 or kind == "eq") and neq < n - 1:
            neq += 1
            gl.append(v); gu.append(v)
        elif t < 0.6:
            gl.append(v - abs(q(rng, 0, 2))); gu.append(2e19)
        elif t < 0.8:
            gl.append(-2e19); gu.append(v + abs(q(rng, 0, 2)))
        elif t < 0.95:
            gl.append(v - abs(q(rng, 0, 2)) - .25); gu.append(v + abs(q(rng, 0, 2)) + .25)
        else:
            gl.append(-2e19); gu.append(2e19)
    if kind == "infeas" and m:
        i = rng.randrange(m)
        con[i] = [[1.0, [j, j]] for j in {v for t in con[i] for v in t[1]}] + [[1.0, [rng.randrange(n)], "exp", 0.0]]
        gl[i] = -2e19 if rng.random() < .5 else -1.0
        gu[i] = -1.0
    xl, xu = [], []
    nfix = 0
    for i in range(n):
        t = rng.random()
        if kind == "log":
            xl.append(rng.choice([0.0, 0.25, -2e19])); xu.append(rng.choice([2e19, xs[i] + 3]))
        elif t < fixed and nfix < n - 1 - neq:
            nfix += 1
            xl.append(xs[i]); xu.append(xs[i])
        elif t < 0.4:
            xl.append(-2e19); xu.append(2e19)
        elif t < 0.6:
            xl.append(xs[i] - abs(q(rng, 0, 3))); xu.append(2e19)
        elif t < 0.75:
            xl.append(-2e19); xu.append(xs[i] + abs(q(rng, 0, 3)))
        else:
            xl.append(xs[i] - abs(q(rng, 0, 3)) - .125); xu.append(xs[i] + abs(q(rng, 0, 3)) + .125)
    amp = 3 if kind in ("convex", "mixed", "eq") else 8
    x0 = [q(rng, -amp, amp) for _ in range(n)]
    if kind == "log":
        x0 = [abs(v) + .125 for v in x0]
    base = rng.randint(0, 1) if base is None else base
    J = jac_pattern(con)
    if rng.random() < 0.3 and n > 1 and m:   # a structural zero
        z = (rng.randrange(m), rng.randrange(n))
        if z not in J:
            J.append(z)
    H = [(j, i) if rng.random() < 0.3 else (i, j) for (i, j) in hes_pattern([obj] + con, n)]
    p = dict(n=n, m=m, base=base, obj=obj, con=con, xl=xl, xu=xu, gl=gl, gu=gu, x0=x0, jac=split(rng, J, dup), hes=split(rng, H, dup))
    if domain:
        p["domain"] = domain
    elif kind == "log":
        p["domain"] = rng.choice(["nan", "false"])
    if scal:
        s = dict(obj=rng.choice([1.0, 0.25, 8.0, -1.0, -4.0] if scal == "neg" else [1.0, 0.25, 8.0]))
        if rng.random() < .7:
            s["x"] = [rng.choice([1.0, .5, 4.0, .0625]) for _ in range(n)]
        if rng.random() < .7:
            s["g"] = [rng.choice([1.0, .5, 16.0, .125]) for _ in range(m)]
        p["scal"] = s
    if lin:
        nlv = {v for f in [obj] + con for t in f for v in t[1] if len(t[1]) > 1 or (len(t) > 2 and t[2])}
        p["nl"] = sorted(nlv)
        p["vlin"] = [0 if i in nlv else 1 for i in range(n)]
        p["clin"] = [1 if all(len(t[1]) == 1 and not (len(t) > 2 and t[2]) for t in f) else 0 for f in con]
    return p


def options(rng, pool, k=(0, 3)):
    """pick some of the pool entries: {name: [values]}"""
    names = rng.sample(sorted(pool), min(len(pool), rng.randint(*k)))
    return [[nm, str(rng.choice(pool[nm]))] for nm in names]


KINDS = ["mixed", "mixed", "hard", "infeas", "convex", "eq", "log", "nonconvex"]
POOL = {
    "mu_strategy": ["monotone", "adaptive"],
    "mu_oracle": ["quality-function", "probing", "loqo"],
    "adaptive_mu_globalization": ["obj-constr-filter", "kkt-error", "never-monotone-mode"],
    "fixed_variable_treatment": ["make_parameter", "make_parameter_nodual", "make_constraint", "relax_bounds"],
    "nlp_scaling_method": ["none", "gradient-based"],
    "hessian_approximation": ["exact", "limited-memory"],
    "line_search_method": ["filter", "cg-penalty", "penalty"],
    "accept_every_trial_step": ["no", "yes"],
    "start_with_resto": ["no", "yes"],
    "expect_infeasible_problem": ["no", "yes"],
    "watchdog_shortened_iter_trigger": ["0", "1", "2", "10"],
    "max_soc": ["0", "1", "4"],
    "corrector_type": ["none", "affine", "primal-dual"],
    "mehrotra_algorithm": ["no", "yes"],
    "honor_original_bounds": ["no", "yes"],
    "bound_relax_factor": ["0", "1e-8", "1e-4"],
    "tol": ["1e-8", "1e-5", "1e-10"],
    "max_iter": ["3", "20", "60", "200"],
    "acceptable_tol": ["1e-6", "1e-2"],
    "acceptable_iter": ["0", "1", "3", "15"],
    "alpha_for_y": ["primal", "bound-mult", "full", "min-dual-infeas", "dual-and-full", "acceptor"],
    "recalc_y": ["no", "yes"],
    "bound_mult_init_method": ["constant", "mu-based"],
    "least_square_init_duals": ["no", "yes"],
    "least_square_init_primal": ["no", "yes"],
    "check_derivatives_for_naninf": ["no", "yes"],
    "perturb_always_cd": ["no", "yes"],
    "limited_memory_update_type": ["bfgs", "sr1"],
    "limited_memory_max_history": ["0", "1", "6"],
    "skip_corr_if_neg_curv": ["no", "yes"],
    "fixed_mu_oracle": ["average_compl", "probing", "loqo", "quality-function"],
    "soft_resto_pderror_reduction_factor": ["0", "0.9999"],
    "required_infeasibility_reduction": ["0.1", "0.9"],
    "constr_mult_init_max": ["1000", "0"],
    "slack_bound_push": ["0.01", "0.1"],
    "mu_init": ["0.1", "1", "1e-4"],
    "kappa_sigma": ["1e10", "10"],
    "neg_curv_test_tol": ["0", "1e-8"],
    "grad_f_constant": ["no"],
}
