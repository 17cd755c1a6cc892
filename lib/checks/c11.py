"""C11: C++ exceptions become Rust errors with the thrown text."""
from checks import _units
from common import *
import suites, probes

def main(ck):
    ck.rule = ("an evaluation is one comparison: the text of an error against the text thrown, a returned value against the value sent, or the end of a process whose "
               "exception has no translation (must be an abort, with no Rust frame resumed); distinct counts distinct values per slot and process")
    n = 24 if THOROUGH else 8
    for std in (("c++17", "c++14", "c++20") if THOROUGH else ("c++17",)):
        suites.run_suite(ck, "errors", n, 2000 if THOROUGH else 150, std=std, want=lambda s: not s.startswith("e"))
    pop = _units.population(("unit_fallible_cxx",), ck.rng, 0, SEED)
    _units.run_units(ck, pop, (400, 6) if THOROUGH else (25, 2), {"mismatch", "ownership", "leak", "crash", "ub", "badfree", "build"})
    probes.run_probes(ck, "x")
