#!/usr/bin/env python3
from _base import *
import _iterate
import e2e


def run(c):
    exe = build(["filter"])["filter"]
    inv = ("NoLoss", "Minimal")
    gs = [(1, "0..3", 1), (2, "{2, 3, 6}", 3), (3, "{3, 6}", 3)]
    if c.thorough:
        gs = [(1, "0..9", 1), (2, "{0, 3, 5, 9}", 4), (3, "{1, 4, 7}", 3), (4, "{3, 6}", 4)]
    for d, v, n in gs:
        h = graph(c, "Filter", dict(Dim=d, Vals=v, MaxEntries=n, Sample=0, MaxLen=60), inv)
        replay(c, "filter%d" % d, h, exe, keep=200000 if c.thorough else 12000)
    for d, v, ml, num in ((2, "0..9", 60, 20), (3, "{0, 2, 3, 4, 6, 9}", 40, 12)):
        h = walks(c, "Filter", dict(Dim=d, Vals=v, MaxEntries=20, Sample=6, MaxLen=ml), num * (20 if c.thorough else 1), ml + 1, ())
        replay(c, "walk%d" % d, h, exe)
    # the acceptance rule in whole runs, and the numbers it works with
    _iterate.linesearch(c, "LsFilter", e2e.lsfilter, "C07", 25000 if c.thorough else 900)
    _iterate.run(c, "C07", 10000 if c.thorough else 150)


main(run, "C07", "model_checking")
