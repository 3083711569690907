#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _protocol
from _base import main


def run(c):
    _protocol.run(c, "C03", 60000 if c.thorough else 2000, 3000 if c.thorough else 0)


main(run, "C03", "model_checking")
