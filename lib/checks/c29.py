"""C29: rust::Box and rust::Fn in C++ against a reference model."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on a rust::Box (address and value as seen by both languages, after each of up to 24 random operations) or of the "
               "result of a call through a kept/copied rust::Fn with a direct call; object lifetimes are accounted for by the registry; distinct counts distinct values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++14", "c++20") if THOROUGH else ("c++17",)):
        suites.run_suite(ck, "boxfn", n, 1000 if THOROUGH else 80, std=std)
