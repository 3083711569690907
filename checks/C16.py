#!/usr/bin/env python3
from _base import *

NAMES = '{"str", "any", "flag", "num", "cnt", "unk"}'
PRE = '{"", "resto.", "RESTO.", "Resto.", "b."}'


def run(c):
    import time
    exe = build(["options"], flavor="asan", only=["Common"])["options"]
    inv = ()
    for names, pre in [('{"num", "unk"}', '{"", "resto."}'), ('{"str"}', '{"", "RESTO."}'), ('{"cnt"}', '{"", "RESTO."}')] + (
            [('{"str", "cnt"}', '{"", "RESTO."}')] if c.thorough else []):
        h = graph(c, "Options", dict(Prefixes=pre, Names=names, Chunks="{}", TextLen=0, MaxLen=60, Reg="TRUE"), inv)
        c.count("transition_coverage_histories", len(h))
        replay(c, "options", h, exe, keep=100000 if c.thorough else 10000)
    h = graph(c, "Options", dict(Prefixes='{"", "RESTO.", "resto."}', Names='{"num", "NUM"}' if not c.thorough else '{"num", "NUM", "any", "Any"}', Chunks="{}", TextLen=0, MaxLen=60, Reg="FALSE"), inv)
    c.count("transition_coverage_histories", len(h))
    replay(c, "unregistered", h, exe, keep=100000 if c.thorough else 10000)
    # all option texts over the token grammar
    for chunks, n in [(r'{" ", "\n", "#", "\"", "num", "cnt", "7", "0.5"}', 5 if c.thorough else 4),
                      (r'{" ", "\n", "cnt", "4294967301", "-4", "resto.cnt", "2", "RESTO.num", "5d-1"}', 5 if c.thorough else 4),
                      (r'{" ", "\"", "any", "#", "\n", "7"}', 6 if c.thorough else 5)]:
        h = walks_text(c, chunks, n)
        replay(c, "text", h, exe, keep=200000 if c.thorough else 12000)
    for ml in ((12, 30) if not c.thorough else (12, 30, 80)):
        h = walks(c, "Options", dict(Prefixes=PRE, Names=NAMES, TextLen=14, MaxLen=ml, Reg="TRUE",
                                     Chunks=r'{" ", "\n", "\t", "#", "\"", "num", "cnt", "str", "any", "unk", "NUM", "resto.", "RESTO.num", "resto.str", "Alpha", "BETA", "5d-1", "1E0", "1D+0", "2", "-4", "4294967301"} \cup {" "}'),
                  400 if c.thorough else 4, ml + 1, inv)
        replay(c, "options-walk", h, exe, keep=60000 if c.thorough else 8000)


def walks_text(c, chunks, n):
    r = tlc("Options", body=CFG + "INVARIANT EmitH\n", consts=dict(Prefixes='{"", "resto.", "RESTO.", "Resto."}', Names="{}", Chunks=chunks, TextLen=n, MaxLen=3, Reg="TRUE"))
    if not r.ok:
        raise ToolError(r.output[-3000:])
    c.add_tlc(r)
    c.count("option_texts", len(r.emitted))
    return r.emitted


main(run, "C16", "model_checking")
