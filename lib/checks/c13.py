"""C13: a panic behind the bridge aborts the process."""
from common import *
import probes

def main(ck):
    ck.rule = ("an evaluation is one process in which Rust code called from C++ panics (or, as control, does not): it must end by SIGABRT with the panic logged and no C++ or "
               "outer Rust frame unwound, resumed or entered as a handler; distinct counts (place, payload, exit) triples")
    probes.run_probes(ck, "p")
