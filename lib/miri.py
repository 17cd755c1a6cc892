"""The Rust half of the library and of a bridge under Miri (harness/miri); C++ is played by Rust code
behind the same symbols. Judges undefined behaviour only: the stand-in relies on the private interface
between the halves, so anything else (symbols it does not know, assertions) gives no verdict."""
import re, threading
from common import *

FLAGS = "-Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks"


def cmd(seed, iters, extra=""):
    env = base_env(); env["MIRIFLAGS"] = FLAGS + extra
    env["CARGO_NET_OFFLINE"] = "true"
    return (["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "miri", "Cargo.toml"),
             "--target-dir", os.path.join(WORK, "target-miri"), "--", str(seed), str(iters)], env)


def start(ck, nseeds, iters, timeout=600):
    note = ck.notes.setdefault("miri", {"events": 0, "runs": 0, "without a verdict": 0})

    def one(i):
        # the aliasing model and the seed of Miri's own choices (addresses, alignment) vary
        sd = SEED * 100 + i
        c, env = cmd(sd, iters, " -Zmiri-seed=%d%s" % (sd, " -Zmiri-symbolic-alignment-check" if i % 4 == 3 else ""))
        r = run(c, timeout=timeout, env=env)
        m = re.search(r"SUMMARY events=(\d+)", r.out)
        ub = re.search(r"error: Undefined Behavior: (.*)", r.err)
        with ck.lock:
            note["runs"] += 1
            if m: note["events"] += int(m.group(1))
            elif not ub: note["without a verdict"] += 1
        if m: ck.count(int(m.group(1)), ("miri", i))
        elif ub and "calling a function" not in ub.group(1):
            at = re.search(r"-->\s*(\S+?):\d+", r.err)
            ck.violation("miri/" + re.sub(r"<\d+>|alloc\d+|0x[0-9a-f]+|\d+", "N", ub.group(1))[:80] + " at " + (at.group(1) if at else "?"),
                         "undefined behaviour seen by Miri (seed %d, %d iterations)\n%s" % (sd, iters, r.err[-5000:]),
                         {"stderr.txt": r.err[-40000:], "command.txt": "MIRIFLAGS=%r %s" % (env["MIRIFLAGS"], " ".join(c))})
        else: ck.log("miri: no verdict (rc %s%s)" % (r.rc, ", timeout" if r.timeout else ""), r.err[-600:])

    def work():
        try:
            c, env = cmd(0, 0)
            r = run(c, timeout=500, env=env)
            if r.rc or "SUMMARY" not in r.out:
                note["not run"] = (r.err or r.out)[-800:]
                ck.log("miri: could not be built", note["not run"])
                return
            pmap(one, range(nseeds), nseeds if nseeds < 4 else 4)
        except InfraError as e: ck.log("miri:", str(e)[:500])
    t = threading.Thread(target=work); t.start()
    return t
