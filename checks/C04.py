#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _protocol
import _iterate
from _base import main


def run(c):
    _protocol.run(c, "C04", 60000 if c.thorough else 2000, 3000 if c.thorough else 0)
    _iterate.run(c, "C04", 15000 if c.thorough else 400)   # the announced numbers are those of the iterate


main(run, "C04", "model_checking")
