import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import builds


def main():
    c = Check("C05", "random values of objects holding every supported field kind, written and read back; subsets of fields; several objects in one text; non-trivial: containers filled")
    b = builds.serial_binary(c)
    c.harness(b, "object_round_trip", 8000, 60000)
    c.harness(b, "partial_and_lists", 8000, 60000)
    c.harness(b, "several_objects", 8000, 60000)
    c.finish()

run(main)
