"""C01: values cross unchanged. Monitor: per-channel send/receive trace of
canonical value dumps (made without the bridge) on both sides of generated
programs covering every type in every position, plus random signatures."""
from checks import _units

ALL = ("unit_prims", "unit_prim_refs", "unit_strings", "unit_vecs", "unit_structs", "unit_ptrs", "unit_refs")

def main(ck):
    th = _units.THOROUGH
    ck.rule = ("an evaluation is one value received on a channel and compared with the value sent; distinct counts "
               "distinct value dumps per generated program (a dump includes contents, length, addresses of borrowed data)")
    pop = _units.population(ALL, ck.rng, 60 if th else 7, SEED_OF(ck))
    _units.run_units(ck, pop, (400, 3) if th else (25, 2), {"mismatch", "crash", "ub", "badfree"})

def SEED_OF(ck): return _units.SEED
