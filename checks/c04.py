import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import builds


def main():
    c = Check("C04", "operation sequences (push, insert, erase, assign, clear, copy, iterate, index) on a node against a list/map model, for both copies; non-trivial: at least one structural change followed by a full comparison")
    b = builds.yaml_binary(c)
    c.harness(b, "container_library", 50000, 400000, env=builds.YAML_ENV)
    c.harness(b, "container_application", 50000, 400000, env=builds.YAML_ENV)
    c.finish()

run(main)
