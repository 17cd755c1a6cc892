"""C07: std::string seen from Rust against a byte-string model."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on a CxxString (contents from Rust and from C++, formatting, ordering, hashing, "
               "construction by let_cxx_string! incl. value expressions that return early or panic) with a Vec<u8> model; distinct counts distinct values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++14", "c++20") if THOROUGH else ("c++17",)):
        suites.run_suite(ck, "cxxstring", n, 2000 if THOROUGH else 150, std=std)
