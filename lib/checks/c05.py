"""C05: rust::Vec in C++ against a reference model."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on a rust::Vec (contents from C++ through indexing, at, front/back, data, "
               "every iterator form, and contents from Rust) with a model after each step of a random operation sequence over 13 element types; "
               "distinct counts distinct observed values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++20", "c++14") if THOROUGH else ("c++17",)):
        if std.endswith("x"): continue
        suites.run_suite(ck, "rvec", n, 400 if THOROUGH else 40, std=std)
