#!/usr/bin/env python3
from _base import *
import _iterate
import e2e


def run(c):
    # how restorations start, when they are left and what is reported
    _iterate.linesearch(c, "Resto", e2e.restoration, "C09", 25000 if c.thorough else 2500)
    # when the line search resorts to restoration and what becomes of its answer
    _iterate.linesearch(c, "LineSearch", e2e.linesearch, "C09", 8000 if c.thorough else 700)


if __name__ == "__main__":
    main(run, "C09", "trace_validation")
