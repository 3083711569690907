#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _iterate
from _base import main


def run(c):
    _iterate.run(c, "C06", 25000 if c.thorough else 700, 1500 if c.thorough else 0)


main(run, "C06", "model_checking")
