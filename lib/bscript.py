"""Running stand-in build scripts (harness/bdrv) in a scratch tree, as a user who can write nothing else."""
from common import *
import os, shutil, stat, subprocess, tempfile, threading

NOBODY = 65534


class Sandbox:
    """A scratch directory owned by an unprivileged user, outside /verif and /repo."""
    def __init__(s, name):
        s.root = tempfile.mkdtemp(prefix=name + "-", dir="/tmp"); os.chmod(s.root, 0o755)
        s.bin = s.root + "/bdrv"; shutil.copy(bdrv_bin(), s.bin); os.chmod(s.bin, 0o755)
        s.mon = s.root + "/fsmon.so"
        r = run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", s.mon, os.path.join(HARNESS, "fsmon", "fsmon.c"), "-ldl"])
        if r.rc: raise InfraError("fsmon: " + r.err)
        s.work = s.root + "/w"; os.mkdir(s.work); os.chown(s.work, NOBODY, NOBODY); os.chmod(s.work, 0o755)
        s.n = 0; s.lock = threading.Lock()
        r = s.spawn(["/bin/true"], {}, "/")
        if r.rc: raise InfraError("cannot run as an unprivileged user: " + r.err)
    def dir(s):
        with s.lock: s.n += 1; d = "%s/%d" % (s.work, s.n)
        os.mkdir(d); os.chown(d, NOBODY, NOBODY); return d
    def popen(s, cmd, env, cwd):
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TERM": "dumb", "HOME": cwd, "TMPDIR": s.work, **env}
        return subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, user=NOBODY, group=NOBODY, extra_groups=[])
    def spawn(s, cmd, env, cwd, timeout=120):
        try: p = s.popen(cmd, env, cwd)
        except PermissionError as x: raise InfraError("cannot run as an unprivileged user: %s" % x)
        return s.wait(p, timeout)
    def wait(s, p, timeout=120):
        try: o, e = p.communicate(timeout=timeout); to = False
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            o, e = p.communicate(); to = True
        return Result(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), to, 0)
    def close(s):
        if s.root.startswith("/tmp/") and len(s.root) > 8: shutil.rmtree(s.root, ignore_errors=True)


def own(path):
    """Hand a tree to the unprivileged user."""
    for d, ds, fs in os.walk(path):
        os.chown(d, NOBODY, NOBODY)
        for f in ds + fs: os.lchown(os.path.join(d, f), NOBODY, NOBODY)


def snapshot(root):
    """path -> (kind, content, mtime, inode)"""
    out = {}
    st = [root]
    while st:
        d = st.pop()
        try: l = list(os.scandir(d))
        except OSError: continue
        for e in l:
            i = e.stat(follow_symlinks=False)
            if stat.S_ISLNK(i.st_mode): out[e.path] = ("l", os.readlink(e.path), i.st_mtime_ns, i.st_ino)
            elif stat.S_ISDIR(i.st_mode): out[e.path] = ("d", i.st_mode & 0o777, 0, i.st_ino); st.append(e.path)
            else: out[e.path] = ("f", open(e.path, "rb").read(), i.st_mtime_ns, i.st_ino)
    return out


def dirs_of(out):
    """The directories that a build script told Cargo about, in order."""
    ds = []
    for l in out.split("\n"):
        if l.startswith("cargo:CXXBRIDGE_DIR") and "=" in l:
            k, v = l[len("cargo:CXXBRIDGE_DIR"):].split("=", 1); ds.append((int(k), v))
    return [v for _, v in sorted(ds)]


def listed(err):
    """The include path as shown to the user: [(dir, private)]"""
    if "\nCXX include path:\n" not in err: return None
    out = []
    for l in err.split("\nCXX include path:\n")[-1].split("\n"):
        if not l.startswith("  "): break
        l = l[2:]; out.append((l[:-10], True) if l.endswith(" (private)") else (l, False))
    return out


def lookup(dirs, name):
    """What #include "name" finds."""
    for d in dirs:
        p = d + "/" + name
        if os.path.isfile(p): return p
    return None
