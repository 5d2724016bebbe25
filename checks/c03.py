import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import builds


def main():
    c = Check("C03", "documents printed from a known tree in random styles (indentation, comments, blank lines, quoting, block scalars, line ends, markers); damaged documents; typed scalars; non-trivial: documents of more than 3 nodes")
    b = builds.yaml_binary(c)
    c.harness(b, "document_meaning", 40000, 300000, env=builds.YAML_ENV)
    c.harness(b, "rejected_documents", 30000, 120000, env=builds.YAML_ENV)
    c.harness(b, "typed_scalars", 30000, 200000, env=builds.YAML_ENV)
    c.finish()

run(main)
