"""Builds shared by several checks."""
import os
from vf import REPO, HARNESS, LIB

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
YS = os.path.join(REPO, "legacy/Fierro_V0/src/Yaml-Serializable")
APP = os.path.join(REPO, "apps/multiphysics/src")
YAML_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:allocator_may_return_null=0", "UBSAN_OPTIONS": "print_stacktrace=1"}


def yaml_binary(c):
    """both copies of the YAML reader (the application's under another namespace) + yaml_props.cpp"""
    # the application's header, unchanged but for a trailing comment: #pragma once takes two files of equal
    # content and time stamp for one
    h = open(os.path.join(APP, "input/Yaml.hpp")).read()
    open(os.path.join(c.tmp, "app_copy_of_header.hpp"), "w").write(h + "\n// copy\n")
    f = ["g++", "-std=c++17", "-g", "-O1", "-w"] + SAN + ["-DWITH_APP", "-I" + LIB, "-I" + c.tmp]
    inc = ["-I" + YS + "/include"]
    return c.compile([(f + inc, YS + "/src/Yaml.cpp", "l.o"), (f + ["-DYaml=AppYaml"], APP + "/input/Yaml.cpp", "a.o"),
                      (f + inc, HARNESS + "/yaml_props.cpp", "h.o")], f, "yaml_props")


def serial_binary(c):
    f = ["clang++", "-std=c++17", "-g1", "-O0", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-I" + LIB, "-I" + c.tmp, "-I" + YS + "/include"]
    return c.compile([(f, YS + "/src/Yaml.cpp", "l.o"), (f, HARNESS + "/serial_props.cpp", "s.o")], f, "serial_props")
