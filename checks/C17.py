#!/usr/bin/env python3
from _base import *


def eq(w, g):
    return same(sorted(w), g) if isinstance(w, list) and isinstance(g, list) else same(w, g)


def run(c):
    exe = build(["journal"], flavor="asan", only=["Common"])["journal"]
    inv = ("UniqueNames",)
    lv = "{-1, 0, 5}"
    for k in ([dict(Slots="{1, 2}", Names='{"a"}', Cats="{2}", UserCats="{14}", Levels=lv)] if not c.thorough else
              [dict(Slots="{1, 2}", Names='{"a", "b"}', Cats="{2}", UserCats="{14}", Levels=lv),
               dict(Slots="{1, 2}", Names='{"a", "b"}', Cats="{2, 10}", UserCats="{}", Levels="{-2, 0, 12}")]):
        h = graph(c, "Journal", dict(k, MaxLen=60), inv)
        c.count("transition_coverage_histories", len(h))
        replay(c, "journal", h, exe, eq=eq, keep=60000 if c.thorough else 12000, args=(c.dir,))
    for ml in ((15, 40) if not c.thorough else (15, 40, 100)):
        h = walks(c, "Journal", dict(Slots="1..4", Names='{"a", "b", "c", "A"}', Cats="{0, 2, 10, 13}", UserCats="{14, 31}",
                                     Levels="{-1, 0, 1, 4, 5, 6, 11, 12}", MaxLen=ml), 100 if c.thorough else 6, ml + 1, inv)
        replay(c, "journal-walk", h, exe, eq=eq, keep=20000 if c.thorough else 3000, args=(c.dir,))


main(run, "C17", "model_checking")
