"""C12: Rust errors become C++ exceptions with the error's text."""
from checks import _units
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison of the text of a caught error, or of a returned value, with what the Rust function was asked for, or of an error object "
               "with a model through copies, moves, assignments and rethrows; distinct counts distinct values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++14", "c++20") if THOROUGH else ("c++17",)):
        suites.run_suite(ck, "errors", n, 2000 if THOROUGH else 150, std=std, want=lambda s: s.startswith("e") or s == "chain")
    pop = _units.population(("unit_fallible_rust",), ck.rng, 0, SEED)
    _units.run_units(ck, pop, (400, 6) if THOROUGH else (25, 2), {"mismatch", "ownership", "leak", "crash", "ub", "badfree", "build"})
