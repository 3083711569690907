#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, c01_loop, _protocol


def run(c):
    exes = vlib.build(["mainloop"])
    c01_loop.run(c, exes)
    _protocol.run(c, "C01", 40000 if c.thorough else 1200, 4000 if c.thorough else 300)


vlib.main(run, "C01", "model_checking")
