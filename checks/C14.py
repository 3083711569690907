#!/usr/bin/env python3
from _base import *


def run(c):
    exe = build(["smart"], flavor="asan", only=["Common"])["smart"]
    inv = ("Safe", "NoOrphan")
    M = '{"smart", "raw"}'
    for ptrs, objs in [("{1, 2}", "1..2"), ("{2, 3}", "1..2")] + ([("{1, 2}", "1..3"), ("{1, 2, 3}", "1..2"), ("{1, 3, 4}", "1..2")] if c.thorough else []):
        h = graph(c, "Smart", dict(Ptrs=ptrs, Objs=objs, Modes=M, MaxLen=60), inv)
        h = [[dict(o, r=dict(o["r"], cnt=(o["r"]["cnt"] + [-1])[:3])) if isinstance(o["r"], dict) else o for o in x] for x in h]
        c.count("transition_coverage_histories", len(h))
        replay(c, "ptr", h, exe, keep=100000 if c.thorough else 30000)
    for ml in ((15, 40) if not c.thorough else (15, 40, 100)):
        h = walks(c, "Smart", dict(Ptrs="1..4", Objs="1..3", Modes=M, MaxLen=ml), 200 if c.thorough else 25, ml + 1, inv)
        replay(c, "ptr-walk", h, exe, keep=60000 if c.thorough else 6000)


main(run, "C14", "model_checking")
