"""C04: rust::String / rust::Str in C++ against reference models."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on rust::String/rust::Str (contents seen from C++ and from Rust, "
               "size, ordering, constructor outcome, ...) with the model; distinct counts distinct observed values per slot and process")
    n = 24 if THOROUGH else 4
    for std in (("c++17", "c++20") if THOROUGH else ("c++20",)):
        suites.run_suite(ck, "rstr", n, 4000 if THOROUGH else 500, std=std)
