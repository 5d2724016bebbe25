import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import builds


def main():
    c = Check("C07", "values of discriminated type families (several levels, lists, optionals) and random texts with type fields; non-trivial: at least two different derived kinds")
    b = builds.serial_binary(c)
    for p in ("discriminated_round_trip", "discriminated_errors", "dispatch"):
        c.harness(b, p, 10000, 80000)
    c.finish()

run(main)
