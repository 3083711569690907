#!/usr/bin/env python3
from _base import *


def run(c):
    exe = build(["matrices"], flavor="asan", only=["Common", "LinAlg", "LinAlg/TMatrices"])["matrices"]
    for depth in ((0, 2) if not c.thorough else (0, 1, 2, 3)):
        h = walks(c, "Matrices", dict(MaxSeed="30000", Depth=depth, MaxLen=8), 700 if not c.thorough else 4000, 12)
        kinds = {}
        for x in h:
            k = x[0]["a"][0]["k"]
            kinds[k] = kinds.get(k, 0) + 1
        c.cov["root_types_depth%d" % depth] = kinds
        replay(c, "matrix-d%d" % depth, h, exe, keep=100000)


main(run, "C24", "model_checking")
