import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import builds


def main():
    c = Check("C06", "class hierarchies with validation hooks and required fields; texts with unknown fields, missing fields, wrong lengths, misspelt enumerators, wrong shapes at random nesting paths; non-trivial: nested objects")
    b = builds.serial_binary(c)
    for p in ("hooks_once", "hooks_discriminated", "strict_unknown_field", "missing_required", "bad_values", "strict_shape", "enum_names"):
        c.harness(b, p, 8000, 60000)
    c.finish()

run(main)
