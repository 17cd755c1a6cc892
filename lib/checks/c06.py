"""C06: rust::Slice in C++ against a reference model."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on a rust::Slice (size, addresses, elements through every accessor and iterator form, "
               "write-through, round trip through Rust) with a model; distinct counts distinct observed values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++20") if THOROUGH else ("c++20",)):
        suites.run_suite(ck, "rslice", n, 300 if THOROUGH else 30, std=std)
