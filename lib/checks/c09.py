"""C09: UniquePtr against a reference model."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on a UniquePtr (address as seen by C++ and Rust, nullness, pointee, forwarded traits, "
               "panics on null) with a model; object lifetimes are accounted for by the registry after each test; distinct counts distinct values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++14", "c++20") if THOROUGH else ("c++17",)):
        suites.run_suite(ck, "uniqueptr", n, 1500 if THOROUGH else 200, std=std)
