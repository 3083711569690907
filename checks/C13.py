#!/usr/bin/env python3
from _base import *


def run(c):
    exe = build(["cache"], flavor="asan", only=["Common"])["cache"]
    inv = ("CapOk", "Sound")
    C, W, CW = '{"cache"}', '{"watch", "tag"}', '{"cache", "watch", "tag"}'
    gs = [("cache", "{-1, 0, 1, 2}", "{1, 2}", "{}", 2, C), ("observers", "{1}", "{1, 2}", "{1, 2}", 0, W)]
    if c.thorough:
        gs += [("cache3", "{2, 3}", "{1, 2}", "{}", 3, C), ("both", "{-1, 0, 1, 2}", "{1, 2}", "{1}", 2, CW), ("observers3", "{1}", "{1, 2, 3}", "{1, 2}", 0, '{"watch"}')]
    for lab, caps, slots, w, me, ops in gs:
        h = graph(c, "Cache", dict(Slots=slots, Watchers=w, Caps=caps, MaxEntries=me, MaxLen=60, Scalars="{<<>>}", Ops=ops), inv)
        c.count("transition_coverage_histories", len(h))
        replay(c, lab, h, exe, keep=100000 if c.thorough else 30000)
    for ml in ((14, 30) if not c.thorough else (12, 25, 60)):
        h = walks(c, "Cache", dict(Slots="{1, 2, 3}", Watchers="{1, 2, 3}", Caps="{-1, 0, 1, 2, 3}", MaxEntries=6, MaxLen=ml,
                                   Scalars="{<<>>, <<1>>, <<2>>, <<1, 2>>}", Ops=CW), 400 if c.thorough else 16, ml + 1, inv)
        replay(c, "walk", h, exe, keep=60000 if c.thorough else 6000)


main(run, "C13", "model_checking")
