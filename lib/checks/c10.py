"""C10: SharedPtr and WeakPtr against a reference count model."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of an observation on a SharedPtr/WeakPtr (address and use_count as C++ sees them, nullness, pointee, result of "
               "upgrade, forwarded traits) with an owner-count model over 18 pointee types; object lifetimes are accounted for by the registry after each test; "
               "distinct counts distinct values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++14", "c++20") if THOROUGH else ("c++17",)):
        suites.run_suite(ck, "sharedptr", n, 400 if THOROUGH else 40, std=std)
