#!/usr/bin/env python3
from _trace import *
import _iterate
import e2e
import C21

EVENTS = ("f", "gradf", "g", "jac", "hes", "jacS", "hesS", "iter", "exc")
DROP = ("x", "xi", "l")
POOL = dict(C21.POOL)
BAD = dict(unknown=[["no_such_option", "1", "s"], ["no_such_option", "1", "i"], ["no_such_option", "1", "n"], ["resto.no_such_option", "yes", "s"]],
           type=[["max_iter", "adaptive", "s"], ["tol", "3", "i"], ["mu_strategy", "2", "i"], ["mu_strategy", "2", "n"], ["max_iter", "2.5", "n"], ["print_level", "0", "n"]],
           range=[["tol", "-1", "n"], ["tol", "0", "n"], ["max_iter", "-5", "i"], ["print_level", "-3", "i"], ["bound_frac", "0.75", "n"], ["tau_min", "1", "n"], ["max_soc", "-1", "i"]],
           choice=[["mu_strategy", "adaptiv", "s"], ["hessian_approximation", "yes", "s"], ["linear_solver", "none", "s"], ["warm_start_init_point", "perhaps", "s"]])


def universe(rng, i):
    while True:
        u = C21.universe(rng, i, 2)
        if all(p["m"] > 0 for p in u["probs"][:1]):
            break
    q = u["probs"][1]   # the second problem has no constraints
    q.update(m=0, con=[], gl=[], gu=[], lam0=[], jac=[])
    if "clin" in q:
        q["clin"] = []
    for p in u["probs"]:
        for k in ("scal", "nl", "vlin", "clin"):
            p.pop(k, None)
        p["scal"] = dict(obj=1.0)
    two = lambda: rng.choice([1.0, 2.0, .5, 4.0])
    u["scal"] = [[dict(obj=1.0), dict(obj=rng.choice([2.0, .25, 100.0])), dict(obj=1.0, x=[two() for _ in range(p["n"])]), dict(obj=two(), g=[two() for _ in range(p["m"])]),
                  dict(obj=two(), x=[two() for _ in range(p["n"])], g=[two() for _ in range(p["m"])])] for p in u["probs"]]
    base = dict(map(tuple, u["base"]))
    if u["struct"][0] != "nlp_scaling_method":
        base["nlp_scaling_method"] = rng.choice(["user-scaling", "user-scaling", "gradient-based", "none"])
    u["alt"] = {"max_iter": "25"}
    for k, v in u["plain"]:
        base.pop(k, None)
    u["base"] = [[k, v] for k, v in base.items()]
    u["plain"] = [["max_iter", "30"]] + [x for x in u["plain"] if x[0] != "max_iter"]
    u["query"] = rng.choice([0, 3, 15, 79])
    if rng.random() < .25:   # stops within the restoration phase
        u["base"] = [x for x in u["base"] if x[0] != "start_with_resto"] + [["start_with_resto", "yes"]]
        u["stop"] = rng.choice([1, 2, 3])
    if rng.random() < .3:
        u["fault"] = [dict(kind=rng.choice(["jacS", "hesS", "iter", "f", "g", "hes"]), k=rng.choice([1, 1, 2]), what=rng.choice(["exc", "nlpexc"]), pos=0, to=-1)]
        if u["fault"][0]["kind"].endswith("S"):
            u["fault"][0]["what"] = "false"
    return u


def settings(u, opts):
    """every option that is ever set, in its current value (options cannot be unset in C)"""
    r = dict((k, v) for k, v in u["base"])
    if opts["plain"]:
        r.update(dict(map(tuple, u["plain"])))
    else:
        r["max_iter"] = "25"
    r["warm_start_init_point"] = "yes" if opts["warm"] else "no"
    r[u["struct"][0]] = u["struct"][1 + opts["struct"]]
    return r


def own(p):
    return dict(x=p["x0"], lam=p["lam0"], zl=p["zl0"], zu=p["zu0"])


def concrete(u, h, cid, rng):
    """the C calls of a history, and the equivalent C++ solves: ([ops], [runs or None per op])"""
    ops, cpp, probs, run_no, cur, nsolve = [], [], [], {}, {}, 0
    plain_set = {}
    for o in h:
        a = o["a"]
        if o["op"] == "create":
            ops.append(dict(op="create", a=a, p=o["p"], d=o["d"], ok=o["ok"]))
            if o["ok"]:
                cur[a] = settings(u, dict(plain=0, warm=0, struct=0))
                plain_set[a] = False
                ops.append(dict(op="opt", a=a, set=[[k, v] for k, v in cur[a].items()], ok=True))
        elif o["op"] == "opt" and not o["ok"]:
            ops.append(dict(op="opt", a=a, set=[rng.choice(BAD[o["o"]])], ok=False))
        elif o["op"] == "opt":
            if o["o"] == "plain":
                st = u["plain"] if o["v"] else [["max_iter", "25"]]
            elif o["o"] == "warm":
                st = [["warm_start_init_point", "yes" if o["v"] else "no"]]
            else:
                st = [[u["struct"][0], u["struct"][1 + o["v"]]]]
            cur[a].update(dict(map(tuple, st)))
            ops.append(dict(op="opt", a=a, set=st, ok=True))
        elif o["op"] == "scal":
            ops.append(dict(u["scal"][0][o["v"]], op="scal", a=a, ok=True, v=o["v"]))
        elif o["op"] in ("cb", "file", "cur", "free"):
            ops.append(dict(o, ok=o.get("ok", True)))
        else:
            nsolve += 1
            p = u["probs"][o["p"] - 1]
            src, mask, arr = o["src"], o["mask"], dict(x="x0", lam="lam0", zl="zl0", zu="zu0")
            dist = dict(faults=u["fault"] if o["d"] == "fault" else [])
            if o["d"] == "stop":
                dist["stop"] = u["stop"]
            ops.append(dict(dist, op="solve", a=a, mask=mask, own={k: v for k, v in own(p).items() if src[k] == 0 and k not in mask}, query=u["query"] if o["cb"] else 0, ok=True, refused=o["refused"], h=o))
            if not o["refused"]:
                P = dict(p, scal=u["scal"][o["p"] - 1][o["scal"]])
                r = dict(dist, app=10 * a + o["gen"], prob=len(probs), opts=[[k, v] for k, v in cur[a].items()], query=u["query"] if o["cb"] else 0,
                         src={arr[k]: run_no[src[k]] for k in arr if src[k] != 0 and k not in mask}, nomult="lam" in mask, noz="zl" in mask or "zu" in mask)   # the C++ problem has both or none
                if not o["cb"]:
                    r.pop("stop", None)
                    r["faults"] = [f for f in r["faults"] if f["kind"] != "iter"]
                probs.append(P)
                run_no[nsolve] = len(cpp)
                cpp.append(r)
                ops[-1]["run"] = run_no[nsolve]
    # scaling values belong to the problem of the handle
    hp = {}
    for o in ops:
        if o["op"] == "create" and o["ok"]:
            hp[o["a"]] = o["p"]
        if o["op"] == "scal":
            for k in ("obj", "x", "g"):
                o.pop(k, None)
            o.update(u["scal"][hp[o["a"]] - 1][o["v"]])
    return dict(id=cid, probs=u["probs"], ops=ops), dict(id=cid, probs=probs, runs=cpp)


def course(evs, a, cb, late="ok"):
    out = []
    for e in evs:
        # callbacks a problem without constraints does not have
        if (late == "gnull" and e["e"] == "g") or (late == "jacnull" and e["e"] in ("jac", "jacS")):
            continue
        if e["e"] not in EVENTS or (e["e"] == "iter" and not cb):
            continue
        o = {k: v for k, v in e.items() if k not in DROP}
        if e.get("x", 0) > 0:
            o["xv"] = a["xs"][e["x"] - 1]
        if e.get("l", 0) > 0:
            o["lv"] = a["ls"][e["l"] - 1]
        out.append(o)
    return out


def histories(c):
    one = dict(Handles="{1}", Probs="{1}", MaxPrep="2", Dist='{"none"}', Masks="{{}}", Defects='{"ok"}', Extras="FALSE")
    creates = graph(c, "CApi", dict(one, Probs="{1, 2}", MaxSolves="1", MaxPrep="1", Extras="TRUE",
                                    Defects='{"ok"} \\cup Refused \\cup WithM \\cup WithoutM \\cup Late', Masks='{{}, {"x"}}'), invs=["MaskOk"])
    masks = graph(c, "CApi", dict(one, Probs="{1, 2}", MaxSolves="2", MaxPrep="2", Masks='{{}, {"lam"}, {"zl"}, {"zu"}, {"zl", "zu"}, {"g", "obj"}, {"x"}, {"lam", "zl", "zu", "g", "obj"}}', Dist='{"none"}'), invs=["MaskOk"])
    calls = graph(c, "CApi", dict(one, Probs="{1}", MaxSolves="3" if c.thorough else "2", MaxPrep="3" if c.thorough else "2", Dist='{"none", "stop", "fault"}', Extras="TRUE"), invs=["MaskOk"])
    walk = walks(c, "CApi", dict(Handles="{1, 2}", Probs="{1, 2}", MaxSolves="6", MaxPrep="5", Dist='{"none", "stop", "fault"}', Masks='{{}, {"lam"}, {"zl", "zu"}, {"g", "obj"}}',
                                 Defects='{"ok", "gnull", "jacnull", "hnull", "style2", "n0"}', Extras="TRUE"), 600 if c.thorough else 50, 45)
    return dict(creates=creates, masks=masks, calls=calls, walks=walk)


def solves(h):
    return any(o["op"] == "solve" for o in h)


def batch(c, exe, rexe, us, sets, k, rng, flavor):
    cs, cp, by = [], [], {}
    for u in us:
        for name, hs in sets.items():
            for h in rng.sample(hs, min(len(hs), k[name])):
                a, b = concrete(u, h, len(cs), rng)
                cs.append(a)
                cp.append(b)
                by[a["id"]] = a
                c.count("histories_" + name)
    ans, crashes = run_parallel(exe, cs, timeout=600)
    for case, rc, err in crashes:
        c.violation("CApi/crash", "the C interface died or hung (%s)" % rc, dict(case=case, rc=rc, stderr=err))
    ref = solve_all(c, [x for x in cp if x["runs"]], flavor=flavor, exe=rexe)
    tr = []
    for a, b in zip(cs, cp):
        if a["id"] not in ans or (b["runs"] and a["id"] not in ref):
            continue
        A, B = ans[a["id"]], ref.get(a["id"])
        pairs, what = [], []
        held = {}
        for op, r in zip(a["ops"], A["ops"]):
            if op["op"] == "free":
                held.pop(op["a"], None)
            if op["op"] != "solve":
                pairs.append((dict(e=op["op"], ok=r["ok"], any=r.get("any", op["ok"]), same=r.get("same", True), exists=r.get("exists", op["ok"])), dict(e=op["op"], ok=op["ok"], any=op["ok"], same=True, exists=op["ok"])))
                c.count("calls_%s_%s" % (op["op"], "accepted" if op["ok"] else "refused"))
                continue
            H = held.setdefault(op["a"], dict(x=[], lam=[], zl=[], zu=[]))
            for z, v in op["own"].items():
                H[z] = [num(w) for w in v]
            g, obj = [num(-7e77)] * len(r["g"]), num(-7e77)
            if op["refused"]:
                right, ret = [], -11
                c.count("solves_refused")
            else:
                ev = B["runs"][op["run"]]["ev"]
                right = course(ev, B, op["h"]["cb"], op["h"]["late"])
                ret = ev[-1]["ret"]
                fin = [e for e in ev if e["e"] == "final"]
                if fin:
                    f = fin[-1]
                    for z, v in (("x", B["xs"][f["x"] - 1]), ("lam", f["lam"]), ("zl", f["zl"]), ("zu", f["zu"])):
                        if z not in op["mask"]:
                            H[z] = v
                    g = g if "g" in op["mask"] else f["g"]
                    obj = obj if "obj" in op["mask"] else f["obj"]
                c.count("solves_%s" % ("final" if fin else "without_result"))
                c.count("solves_%s" % op["h"]["d"])
                c.count("ret_%s" % ret)
            left = course(r["ev"], A, op["h"]["cb"])
            n = max(len(left), len(right))
            none = dict(none=True)
            pairs += [(left[q] if q < len(left) else none, right[q] if q < len(right) else none) for q in range(n)]
            pairs.append((dict({z: r[z] for z in ("x", "lam", "zl", "zu", "g", "obj", "ret", "ud")}, e="result"), dict(H, g=g, obj=obj, ret=ret, ud=True, e="result")))
        tr += _iterate.twin_traces("C19.course", [(a["id"], "history %d" % a["id"], [x for x, y in pairs], [y for x, y in pairs])])
    for lo in range(0, len(tr), 800):
        report(c, "Twin", tr[lo:lo + 800], check_traces(c, "Twin", tr[lo:lo + 800]), by)
    if tr:
        c.sample(dict(ops=[{k: v for k, v in o.items() if k != "own"} for o in cs[-1]["ops"]][:8]))


def num(v):
    return v if isinstance(v, str) else "%.17g" % v


def run(c):
    sets = histories(c)
    for name, hs in sets.items():
        sets[name] = hs = [h for h in hs if solves(h) or name == "creates"]
        c.count("histories_generated_" + name, len(hs))
    for flavor, nu, k in (("std", 150 if c.thorough else 10, dict(creates=60, masks=40, calls=30, walks=25)), ("asan", 30 if c.thorough else 2, dict(creates=60, masks=20, calls=20, walks=10))):
        rng = random.Random("C19/%s/%s" % (c.seed, flavor))
        exe = build(["capi", "solve"], flavor=flavor)
        for lo in range(0, nu, 10):
            us = [universe(rng, i) for i in range(min(10, nu - lo))]
            batch(c, exe["capi"], exe["solve"], us, sets, k, rng, flavor)


if __name__ == "__main__":
    main(run, "C19", "model_checking")
