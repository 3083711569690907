#!/usr/bin/env python3
from _base import *


def opt(**k):
    d = dict(init="0.015625", max="1", min="0.00390625", dec="0.25", inc="4", inc1="16", cd="0.125", exp="0.25",
             always=False, minref=1, maxref=2, strict=False, curv="off")
    d.update(k)
    return "[" + ", ".join("%s |-> %s" % (a, '"%s"' % b if isinstance(b, str) else str(b).upper() if isinstance(b, bool) else b) for a, b in d.items()) + "]"


DEF = dict(init="1e-4", max="1e20", min="1e-20", dec="0.33333333333333331", inc="8", inc1="100", cd="1e-8")
INV = ("Ends", "InRange", "Solid")


def handler(c, exe):
    """Every reachable state of the perturbation handler, every answer of the linear solver in it."""
    base = dict(NRs="{2}", Accs="{16}", Kinds='{"plain"}', Whats='{"all"}', MaxLen=14, MaxCalls=40, Thin="FALSE", Calm=0, Record="TRUE")
    sets = [("{2}", {}), ("{2}", dict(always=True)), ("{2}", dict(cd="0")), ("{0}", {}), ("{2}", dict(curv="reg"))]
    if c.thorough:
        sets += [("{2}", dict(always=True, cd="0")), ("{2}", dict(curv="noreg")), ("{2}", dict(dec="0.5", inc="2", inc1="4")), ("{2}", dict(init="0.5", max="4", inc1="2")),
                 ("{0}", dict(curv="reg")), ("{2}", dict(exp="0")), ("{2}", dict(init="2")), ("{2}", dict(min="0.03125")), ("{2}", dict(minref=0))]
    for nrs, o in sets:
        whats = '{"all", "flip"}' if "curv" in o else '{"all", "mu"}' if c.thorough else '{"all"}'
        h = graph(c, "PdSystem", dict(base, Opts="{%s}" % opt(**o), NRs=nrs, Whats=whats), INV, workers=4)
        c.count("transition_coverage_histories", len(h))
        replay(c, "step", h, exe, keep=100000 if c.thorough else 3500)


def refine(c, exe):
    """Every course of iterative refinement, quality requests and repeated calls."""
    base = dict(NRs="{2}", Accs="{0, 4, 16}", Kinds='{"plain", "add", "neg", "inexact", "improve"}', Whats='{"all", "mu"}', MaxLen=4, MaxCalls=60, Thin="FALSE", Calm=0, Record="TRUE")
    sets = [dict(), dict(minref=0, maxref=1), dict(strict=True)]
    if c.thorough:
        sets += [dict(minref=0, maxref=0), dict(minref=2, maxref=2), dict(minref=1, maxref=5), dict(always=True), dict(max="2")]
    for o in sets:
        o = dict(dict(init="0.5", max="0.5"), **o)
        p = dict(base, Opts="{%s}" % opt(**o), MaxLen=5 if c.thorough else 4, NRs="{0, 2}" if c.thorough else "{2}")
        if not c.thorough:
            p.update(Kinds='{"plain", "add", "neg", "inexact", "improve"}' if len(o) == 2 else '{"plain", "improve"}', Whats='{"all"}')
        h = graph(c, "PdSystem", p, INV, workers=4)
        c.count("transition_coverage_histories", len(h))
        replay(c, "refine", h, exe, keep=100000 if c.thorough else 3500)


def long_walks(c, exe):
    """Long histories with the default factors and all kinds of changes."""
    whats = '{"all", "W", "x", "s", "y", "zL", "zU", "vL", "vU", "mu"}'
    ops = [opt(**DEF), opt(**dict(DEF, always=True)), opt(**dict(DEF, init="3e-3", dec="0.1", inc="2.5", inc1="7", min="2e-5", max="50", cd="1e-3", exp="0.5"))]
    base = dict(Opts="{%s}" % ", ".join(ops), NRs="{0, 2}", Accs="{0, 4, 16}", Kinds='{"plain", "plain2", "add", "neg", "inexact", "improve"}', Whats=whats,
                MaxCalls=400, Thin="TRUE", Record="TRUE")
    for calm, ml in ((7, 30), (4, 12), (9, 60), (1, 6)):
        h = walks(c, "PdSystem", dict(base, MaxLen=ml, Calm=calm), 1500 if c.thorough else 150, 12 * ml if calm > 1 else 400, ("Ends", "InRange"))
        replay(c, "walk", h, exe, keep=60000 if c.thorough else 3000)
    # hard cases: everything but success
    h = walks(c, "PdSystem", dict(base, Accs="{16}", Kinds='{"plain"}', MaxLen=8, Calm=0, Opts="{%s}" % ops[0]), 1500 if c.thorough else 200, 600, ("Ends", "InRange"))
    replay(c, "hard", h, exe, keep=60000 if c.thorough else 3000)


def terminates(c):
    """Every call ends, whatever the linear solver answers (liveness, without recording histories)."""
    for o in [{}, dict(cd="0"), dict(always=True)] + ([dict(curv="reg")] if c.thorough else []):
        body = "SPECIFICATION Fair\nPROPERTY Terminates\n"
        r = tlc("PdSystem", body=body, consts=dict(Opts="{%s}" % opt(max="0.25", maxref=1, **o), NRs="{2}", Accs="{0, 16}", Kinds='{"plain"}', Whats='{"all"}', MaxLen=1000000, MaxCalls=1000,
                                                   Thin="FALSE", Calm=0, Record="FALSE"), timeout=300)
        if not r.ok:
            raise ToolError("PdSystem: %s\n%s" % (r.violated, r.output[-3000:]))
        c.add_tlc(r)
        log("termination: %d states, %.1fs" % (r.states, r.wall))


def run(c):
    exe = build(["pdsys"], flavor="std")["pdsys"]
    terminates(c)
    handler(c, exe)
    refine(c, exe)
    long_walks(c, exe)


if __name__ == "__main__":
    main(run, "C11", "model_checking")
