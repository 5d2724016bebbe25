import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import builds


def main():
    c = Check("C01", "texts assembled from YAML tokens, mutations of well-formed documents and raw bytes; non-trivial: more than 3 characters containing a structural mark, distinct texts counted",
              ["both copies of the reader run under address, undefined-behaviour and leak checking", "inputs up to a few kB"])
    b = builds.yaml_binary(c)
    c.harness(b, "any_tokens", 60000, 400000, env=builds.YAML_ENV)
    c.harness(b, "any_mutation", 40000, 300000, env=builds.YAML_ENV)
    c.harness(b, "any_file", 6000, 40000, env=builds.YAML_ENV)
    c.finish()

run(main)
