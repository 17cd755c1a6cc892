"""Process-ending probes: lib/suites/abort, one process per probe."""
import common
from common import *
import suites

TEXT = {1, 2, 6, 7}   # payloads whose text the panic hook prints


def run_probes(ck, kind, modes=None):
    """kind 'p': a panic behind the bridge; 'x': an exception without translation."""
    exe = suites.build_suite(ck, "abort")
    if not exe: return
    # Leaks are expected: nothing is torn down after an abort.
    env = base_env(ASAN_OPTIONS=ASAN_OPTIONS.replace("detect_leaks=1", "detect_leaks=0"))
    names = [n for n in run([exe], env=env).out.split() if n.startswith(kind + ".")]
    if not names: raise InfraError("no probes")
    jobs = []
    for i, n in enumerate(names):
        jobs.append((n, 0))
        if kind == "x": jobs.append((n, 1))
        else:
            for m in (range(1, 8) if THOROUGH else sorted({1, 1 + (i + SEED) % 7})): jobs.append((n, m))

    def one(j):
        n, m = j
        r = run([exe, n, str(m)], timeout=120, env=env)
        files = {"stdout.txt": r.out, "stderr.txt": r.err}
        marks = [l for l in r.out.splitlines() if l in ("RETURNED", "CAUGHT", "UNWOUND")]
        desc = "probe %s payload %d: rc=%s marks=%s" % (n, m, r.rc, marks)
        if "BEGIN" not in r.out: raise InfraError(desc + r.err[-500:])
        ck.count(1); ck.saw((n, m, r.rc))
        if m == 0:
            if r.rc != 0 or marks != ["RETURNED"]: ck.violation("abort/%s/control" % n, desc + " although nothing fails\n" + r.err[-1500:], files)
            return
        if marks or r.rc != -6:
            ck.violation("abort/%s" % n, desc + " instead of an abort\n" + r.err[-1500:], files)
        elif kind == "p" and m in TEXT and "4711" not in r.err and ".capacity." not in n:
            ck.violation("abort/%s/log" % n, desc + ": the panic was not logged\n" + r.err[-1500:], files)
        # (resume_unwind skips the hook, and the message about the function needs unwinding)
        elif kind == "p" and "panic" not in r.err and not (m == 4 and common.CONF["rust"]):
            ck.violation("abort/%s/log" % n, desc + ": the panic was not logged\n" + r.err[-1500:], files)
    pmap(one, jobs)
    ck.notes.setdefault("observed", {})["probes_" + kind] = len(names)
    ck.notes["observed"]["probe_processes_" + kind] = len(jobs)
    ck.sample("probes: " + " ".join(names[:6]))
