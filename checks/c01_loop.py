"""C01 part 1: MainLoop.tla behaviours replayed in the real IpoptApplication/IpoptAlgorithm (S->C)."""
import vlib


def configs(thorough):
    F, T = "FALSE", "TRUE"
    c = [(2 if not thorough else 3, 1, F, F, F), (1 if not thorough else 2, 1, T, F, F), (0, 2, F, F, F), (0, 1, F, T, F), (0, 1, F, F, T), (0, 1, T, T, T)]
    if thorough:
        c += [(1, 1, F, T, T), (1, 1, T, T, F), (0, 3, F, F, F), (0, 2, T, F, T)]
    return c


def run(c, exes):
    for mi, mr, sq, sk, rt in configs(c.thorough):
        r = vlib.tlc("MainLoop", consts=dict(MaxIter=mi, MaxRuns=mr, Square=sq, SkipFin=sk, Rethrow=rt), timeout=800)
        if not r.ok:
            raise vlib.ToolError("MainLoop model violated: %s\n%s" % (r.violated, r.output[-3000:]))
        c.add_tlc(r)
        em = r.emitted
        if len(em) > 60000:
            em = c.rng.sample(em, 60000)
        cases = [dict(id=i, square=sq == "TRUE", skip=sk == "TRUE", rethrow=rt == "TRUE", runs=b) for i, b in enumerate(em)]
        ans, crashes = vlib.run_parallel(exes["mainloop"], cases, timeout=200)
        cfg = "MaxIter=%d,MaxRuns=%d,Square=%s,Skip=%s,Rethrow=%s" % (mi, mr, sq, sk, rt)
        for case, rc, err in crashes:
            c.violation("loop/crash/%s" % cfg, "driver died (rc %s)" % rc, dict(case=case, stderr=err))
        for case in cases:
            a = ans.get(case["id"])
            if a is None:
                continue
            c.cov["traces_validated_against_impl"] += 1
            for i, w in enumerate(case["runs"]):
                g = a["runs"][i] if i < len(a["runs"]) else {}
                want = dict(calls=[k["c"] for k in w["calls"]], ret=w["ret"], fin=w["fin"], iters=w["iters"])
                got = {k: g.get(k) for k in want}
                if want != got or g.get("timer"):
                    last = w["calls"][-1]
                    c.violation("loop/%s/%s" % (last["c"], last["o"]), "solve ended by %s -> %s: expected %s got %s" % (
                        last["c"], last["o"], {k: want[k] for k in want if want[k] != got[k]}, {k: got[k] for k in want if want[k] != got[k]}),
                        dict(config=cfg, case=case, got=a))
                    break
        c.sample(dict(config=cfg, behaviour=em[len(em) // 2]))
