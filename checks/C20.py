#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _iterate
from _base import *


def silent(cs):
    for r in cs["runs"]:
        r["query"] = 0
    return cs


def run(c):
    _iterate.run(c, "C20", 25000 if c.thorough else 700, 1500 if c.thorough else 0)
    # queries (all of them, or a part with omitted quantities) never change the course of the solve
    rng = random.Random("C20twin/%s" % c.seed)
    for lo in range(0, 20000 if c.thorough else 700, 1000):
        cases = _iterate.cases_for("C20", rng, 1000 if c.thorough else 700)
        for cs in cases:
            q = rng.choice([15, 64, 79, 1 + 2, 4 + 8])
            for r in cs["runs"]:
                r["query"] = q
        _iterate.twins(c, "C20.course", cases, silent)


main(run, "C20", "model_checking")
