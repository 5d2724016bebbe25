import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import builds


def main():
    c = Check("C02", "random trees of maps, sequences and scalars (plain, with YAML marks, multi-line, empty), random writing options; non-trivial: more than 3 nodes",
              ["scalars of the recorded findings (quote characters, '#' in multi-line text, leading blanks, one line ending in a line break) are excluded by construction"])
    b = builds.yaml_binary(c)
    c.harness(b, "write_read", 40000, 300000, env=builds.YAML_ENV)
    c.harness(b, "write_read_file", 6000, 40000, env=builds.YAML_ENV)
    for k in ("quote_characters", "hash_in_block", "leading_blank", "final_line_break"):
        c.known_case(b, "known_" + k, k.replace("_", "-"), env=builds.YAML_ENV)
    c.finish()

run(main)
