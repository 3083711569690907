#!/usr/bin/env python3
from _base import *

SCR = '{<<"success">>, <<"singular">>, <<"wrong">>, <<"fatal">>, <<"again", "success">>, <<"again", "again", "success">>, <<"again", "singular">>}'


def backend(c):
    """The wrapper and the format conversion against a scripted backend."""
    exe = build(["tsym"], flavor="std")["tsym"]
    base = dict(Fmts="0..4", Scals='{"none", "always", "demand"}', Dims="{1}", NEnt=1, AllPats="FALSE", Scripts=SCR, MaxLen=60,
                Objs="1..2", NumRhs="1..2", QAns="BOOLEAN", Warm="TRUE", OnlyAll="FALSE", Thin="FALSE")
    for f in range(5):
        for sc in ("none", "always", "demand"):
            if not c.thorough and (f, sc) not in ((0, "demand"), (2, "always"), (4, "none"), (1, "none"), (3, "demand"), (0, "none")):
                continue
            p = dict(base, Fmts="{%d}" % f, Scals='{"%s"}' % sc)
            if not c.thorough:
                p["NumRhs"] = "{1}" if f % 2 else "{2}"
                p["Scripts"] = '{<<"success">>, <<"singular">>, <<"wrong">>, <<"again", "success">>, <<"again", "fatal">>}'
            h = graph(c, "TSym", p, ("Sound",), workers=1 if not c.thorough else 4)
            c.count("transition_coverage_histories", len(h))
            replay(c, "lin", h, exe, keep=50000 if c.thorough else 6000)
    for ml in ((8, 25) if not c.thorough else (8, 25, 80)):
        h = walks(c, "TSym", dict(base, MaxLen=ml, Thin="TRUE"), 400 if c.thorough else 40, ml + 1, ("Sound",))
        replay(c, "lin-walk", h, exe, keep=60000 if c.thorough else 6000)


def convert(c):
    """Every small pattern in every format."""
    exe = build(["tsym"], flavor="std")["tsym"]
    for dims, ne in ((("{1, 2}", 4), ("{3}", 3)) if not c.thorough else (("{1}", 6), ("{2}", 6), ("{3}", 4), ("{4}", 3))):
        h = graph(c, "TSym", dict(Fmts="1..4", Scals='{"none", "always"}' if ne <= 3 or dims == "{2}" else '{"none"}', Dims=dims, NEnt=ne, AllPats="TRUE", Scripts='{<<"success">>}', MaxLen=2,
                                  Objs="{1}", NumRhs="{1}", QAns="{TRUE}", Warm="FALSE", OnlyAll="TRUE", Thin="FALSE"), ("Sound",), workers=4)
        h = [x for x in h if len(x) == 2]
        c.count("patterns_converted", len(h))
        replay(c, "convert", h, exe, keep=300000 if c.thorough else 20000)


def assemble(c):
    """The augmented system built from its inputs."""
    exe = build(["augsys"], flavor="std")["augsys"]
    dims = [(2, 1, 1), (1, 2, 0)] + ([(2, 0, 1), (3, 1, 2), (2, 2, 0), (1, 0, 0)] if c.thorough else [])
    for nx, ns, nc in dims:
        k = dict(NX=nx, NS=ns, NC=nc, Deltas="{0, 3}", Thin="FALSE", Resets="FALSE", MaxLen=60)
        if c.thorough or nx == 2:
            h = graph(c, "AugSys", dict(k, Thin="FALSE" if c.thorough else "TRUE"), workers=1)
            c.count("transition_coverage_histories", len(h))
            replay(c, "assemble", h, exe, keep=100000 if c.thorough else 10000, extra=dict(nx=nx, ns=ns, nc=nc))
        for ml in ((30,) if not c.thorough else (12, 60)):
            h = walks(c, "AugSys", dict(k, Thin="TRUE", MaxLen=ml, Resets="TRUE"), 100 if c.thorough else 20, ml + 1)
            replay(c, "assemble-walk", h, exe, keep=30000 if c.thorough else 2000, extra=dict(nx=nx, ns=ns, nc=nc))


def run(c):
    assemble(c)
    backend(c)
    convert(c)


if __name__ == "__main__":
    main(run, "C12", "model_checking")
