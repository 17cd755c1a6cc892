"""C03: no undefined behaviour in safe use. Monitor: AddressSanitizer on both
languages, UBSan on the C++ side, debug assertions on the Rust side; Miri for
the Rust side alone."""
from checks import _units
import suites, miri

def main(ck):
    th = _units.THOROUGH
    ck.rule = "an evaluation is one bridge crossing in an instrumented program; distinct counts distinct value dumps"
    interpreted = miri.start(ck, 8 if th else 2, 12 if th else 2)
    pop = _units.population(("unit_refs", "unit_structs", "unit_prim_refs"), ck.rng, 60 if th else 7, _units.SEED + 33)
    _units.run_units(ck, pop, (400, 3) if th else (25, 2), {"badfree", "crash", "ub"})
    suites.run_all(ck, {"badfree", "crash", "ub"}, 12 if th else 3, 300 if th else 40, std="c++20")
    interpreted.join()
