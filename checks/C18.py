#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _iterate
from _adapter import *


def run(c):
    rng = random.Random("C18/%s" % c.seed)
    # all combinations of bound types of up to 2 (3) variables and 1 (2) constraints with every treatment of fixed variables
    cases = []
    nmax, mmax = (3, 2) if c.thorough else (2, 1)
    for n in range(1, nmax + 1):
        for m in range(0, mmax + 1):
            for vt in itertools.product(range(5), repeat=n):
                for ct in itertools.product(range(5), repeat=m):
                    for tr in TREAT:
                        cases.append(adapter_case(rng, len(cases), vt, ct, tr))
    for _ in range(20000 if c.thorough else 600):
        n, m = rng.randint(1, 6), rng.randint(0, 5)
        cases.append(adapter_case(rng, len(cases), [rng.choice([0, 1, 2, 3, 4, 4]) for _ in range(n)], [rng.randrange(5) for _ in range(m)], rng.choice(sorted(TREAT))))
    for lo in range(0, len(cases), 5000):
        adapter(c, cases[lo:lo + 5000], "asan")
    # whole runs: the internal problem at every iterate
    _iterate.run(c, "C18", 20000 if c.thorough else 500, 0)


main(run, "C18", "model_checking")
