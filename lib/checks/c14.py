"""C14: threads: runtime operations under ThreadSanitizer."""
from common import *
import suites

def main(ck):
    ck.rule = ("an evaluation is one comparison made after a concurrent phase (owner counts, destruction counts, results and error messages of each thread); "
               "distinct counts distinct values per slot, among them the observed orders in which threads took steps (slot 'order'); ThreadSanitizer watches every access of library, generated and test code")
    env = base_env(TSAN_OPTIONS="halt_on_error=1:exitcode=97:history_size=4:second_deadlock_stack=1")
    suites.run_suite(ck, "threads", 24 if THOROUGH else 6, 400 if THOROUGH else 30, san="tsan", env=env, jobs=3, timeout=800 if THOROUGH else 300)
    if THOROUGH:
        suites.run_suite(ck, "threads", 8, 300, san="asan", jobs=2, timeout=800)
