#!/usr/bin/env python3
from _base import *

ONE = '{<<"s", "2">>, <<"s", "-0.5">>, <<"v", <<"1", "-2", "0.5">>>>, <<"v", <<"4", "0.25", "2">>>>}'
STARTS = '{<<"s", "0">>, <<"s", "1">>, <<"s", "-3">>, <<"s", "0.5">>, <<"v", <<"0", "-1", "2">>>>, <<"v", <<"4", "0.25", "2">>>>, <<"v", <<"-1", "1", "0">>>>, ' \
         '<<"v", <<"1", "1", "1">>>>, <<"v", <<"1", "Infinity", "2">>>>, <<"v", <<"0", "2", "NaN">>>>, <<"s", "-Infinity">>, <<"s", "NaN">>}'
SHAPES = [("dense", "<<3>>", 3), ("parts21", "<<2, 1>>", [2, 1]), ("parts102", "<<1, 0, 2>>", [1, 0, 2]), ("nested", "<<2, 1>>", [[1, 1], 1])]


def near(w, g):
    if isinstance(w, list):
        return isinstance(g, list) and len(w) == len(g) and all(near(a, b) for a, b in zip(w, g))
    if w == "any" or w == g:
        return True
    try:
        a, b = float(w), float(g)
    except (TypeError, ValueError):
        return False
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def run(c):
    exe = build(["vectors"], flavor="asan", only=["Common", "LinAlg"])["vectors"]
    coefs = '{"0", "1", "-1", "2"}'
    jobs = [("one", "<<3>>", 3, ONE)] + ([("one21", "<<2, 1>>", [2, 1], ONE), ("one102", "<<1, 0, 2>>", [1, 0, 2], ONE)] if c.thorough else [])
    for lab, parts, shape, starts in jobs:
        h = graph(c, "Vectors", dict(N=3, Parts=parts, Coefs=coefs, Starts=starts, Mode='"one"', MaxLen=9), ("TypeOK",))
        c.count("single_operation_histories", len(h))
        replay(c, lab, h, exe, extra=dict(shape=shape), eq=near, keep=200000 if c.thorough else 40000)
    for lab, parts, shape in SHAPES:
        for ml in ((25,) if not c.thorough else (10, 25, 60)):
            h = walks(c, "Vectors", dict(N=3, Parts=parts, Coefs='{"0", "1", "-1", "2", "-0.5"}', Starts=STARTS, Mode='"walk"', MaxLen=ml), 150 if c.thorough else 20, ml + 1, ("TypeOK",))
            replay(c, "walk-" + lab, h, exe, extra=dict(shape=shape), eq=near, keep=60000 if c.thorough else 4000)


main(run, "C15", "model_checking")
