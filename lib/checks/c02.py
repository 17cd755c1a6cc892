"""C02: destroyed exactly once. Monitor: registry of live tracked objects of
both languages checked after every test, LeakSanitizer for everything else,
AddressSanitizer for double frees."""
from checks import _units
import suites

def main(ck):
    th = _units.THOROUGH
    ck.rule = ("an evaluation is one transfer event in a program whose objects are tracked by the registry; distinct "
               "counts distinct value dumps; observed.created/destroyed are tracked objects")
    pop = _units.population(("unit_strings", "unit_vecs", "unit_structs", "unit_ptrs"), ck.rng, 60 if th else 8, _units.SEED + 77)
    a = _units.run_units(ck, pop, (400, 3) if th else (25, 2), {"ownership", "leak", "badfree", "crash", "ub"})
    # operation sequences on every library type, whose objects are tracked as well
    suites.run_all(ck, {"ownership", "leak", "badfree", "crash", "ub"}, 12 if th else 3, 300 if th else 40)
