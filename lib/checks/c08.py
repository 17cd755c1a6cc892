"""C08: std::vector seen from Rust against a reference model."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on a CxxVector (elements through get, iterators, slices, as seen by C++, push/pop results, "
               "bounds, addresses) with a model over 17 element types; distinct counts distinct values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++14", "c++20") if THOROUGH else ("c++17",)):
        suites.run_suite(ck, "cxxvector", n, 300 if THOROUGH else 30, std=std)
