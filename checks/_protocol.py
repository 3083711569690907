"""Whole runs of the real solver, validated against Protocol.tla (C->S)."""
from _trace import *
import e2e

# per property: (share of the cases, generator, settings)
MIX = {
    "C01": [(.4, e2e.random_case, dict(fault=.6, stop=.1, exc=True)), (.3, e2e.seq_case, dict(fault=.4, stop=.1, exc=True)), (.3, e2e.misc_case, dict(fault=.3, exc=True))],
    "C02": [(.45, e2e.random_case, dict(fault=.1, stop=.05)), (.25, e2e.seq_case, dict(fault=.15, stop=.05)), (.3, e2e.misc_case, dict(fault=.1))],
    "C03": [(.7, e2e.random_case, dict(fault=1., nopts=(0, 3))), (.1, e2e.seq_case, dict(fault=.8)), (.2, e2e.misc_case, dict(fault=.9))],
    "C04": [(.7, e2e.random_case, dict(stop=.4, fault=.1, nopts=(0, 4))), (.2, e2e.seq_case, dict(stop=.4)), (.1, e2e.misc_case, dict(stop=.3))],
}


def run(c, pid, n, asan=0):
    for flavor, k in (("std", n), ("asan", asan)):
        if not k:
            continue
        rng = random.Random("%s/%s/%s" % (pid, c.seed, flavor))
        for lo in range(0, k, 2500):   # in parts, to limit memory
            cases = []
            for i in range(min(2500, k - lo)):
                x = rng.random()
                for share, g, kw in MIX[pid]:
                    x -= share
                    if x < 0:
                        break
                cases.append(g(rng, i, **kw))
            ans = solve_all(c, cases, flavor=flavor)
            tr = e2e.traces(cases, ans, e2e.protocol)
            fails = check_traces(c, "Protocol", tr)
            report(c, "Protocol", tr, fails, {cs["id"]: cs for cs in cases}, only=pid + ".")
            for cs in cases:
                a = ans.get(cs["id"])
                for r in (a or {}).get("runs", []):
                    if r["ev"]:
                        c.count("end_%s" % r["ev"][-1].get("ret"))
            c.count("solves", sum(len(a["runs"]) for a in ans.values()))
        if tr:
            c.sample(dict(flavor=flavor, cfg=tr[0]["cfg"], first_events=tr[0]["ev"][:12], last_event=tr[0]["ev"][-1]))
