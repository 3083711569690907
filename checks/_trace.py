from _base import *
import gen


def check_traces(c, module, traces, timeout=600, workers=None, heap="8g"):
    """Validate recorded runs [{cfg, ev}] against a monitor specification; returns [(trace index, event index, clause)]."""
    if not traces:
        return []
    f = os.path.join(c.dir, "%s-%d.ndjson" % (module, random.randrange(10 ** 9)))
    with open(f, "w") as o:
        for t in traces:
            o.write(json.dumps(dict(cfg=t["cfg"], ev=t["ev"])) + "\n")
    try:
        r = tlc(module, body="SPECIFICATION Spec\n", env={"TRACES": f}, timeout=timeout, workers=workers, heap=heap)
    except SpecEvalError as e:
        # a recorded run of a shape that no behaviour of the specification has (a vector of another length, say): find it and report it
        os.remove(f)
        if len(traces) == 1:
            k = [int(x) for x in re.findall(r"/\\ i = (\d+)", str(e))]
            log("%s cannot be evaluated on run %s: %s" % (module, traces[0]["name"], e))
            return [(0, min(k[-1] if k else 0, len(traces[0]["ev"]) - 1), c.pid + ".shape")]
        h = len(traces) // 2
        a = check_traces(c, module, traces[:h], timeout, workers, heap)
        if any(x[2] == c.pid + ".shape" for x in a):
            return a
        return a + [(t + h, i, cl) for t, i, cl in check_traces(c, module, traces[h:], timeout, workers, heap)]
    if not r.ok:
        raise ToolError("%s: %s" % (module, r.output[-3000:]))
    want = sum(len(t["ev"]) + 1 for t in traces)
    if r.states != want:
        raise ToolError("%s: %d states, %d expected" % (module, r.states, want))
    c.add_tlc(r)
    c.cov["traces_validated_against_impl"] += len(traces)
    c.count("trace_events", want - len(traces))
    os.remove(f)
    log("%s: %d traces, %d events, %.1fs" % (module, len(traces), want - len(traces), r.wall))
    return [(o["t"] - 1, o["i"] - 1, o["c"]) for o in r.emitted]


def report(c, module, traces, fails, cases, only=None, window=10):
    """only: clause prefix of this property"""
    seen = {}
    for t, i, cl in sorted(fails, key=str):
        if only and not cl.startswith(only):
            continue
        k = (cl, t)
        if k in seen:
            continue
        seen[k] = 1
        tr = traces[t]
        c.violation("%s/%s" % (module, cl), "event %d (%s) of run %s breaks %s" % (i, tr["ev"][i].get("e"), tr["name"], cl),
                    dict(case=cases.get(tr["case"]) if isinstance(cases, dict) else None, cfg=tr["cfg"], events=tr["ev"][max(0, i - window):i + 1]))


def solve_all(c, cases, flavor="std", timeout=600, exe=None):
    """run cases on the solve driver; crashes are violations (C01: every run ends)"""
    exe = exe or build(["solve"], flavor=flavor)["solve"]
    t0 = time.time()
    ans, crashes = run_parallel(exe, cases, timeout=timeout)
    log("solve: %d cases, %.1fs" % (len(cases), time.time() - t0))
    for case, rc, err in crashes:
        c.violation("solve/crash", "the solver died or hung (%s)" % rc, dict(case=case, rc=rc, stderr=err))
    return ans
