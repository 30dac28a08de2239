"""Executes one command per line on the Python extension, as an unprivileged user."""
import ctypes, os, pathlib, resource, signal, sys

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)

if os.getuid() == 0:
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
# ends with the exploration process (changing the user has cleared this)
ctypes.CDLL(None).prctl(1, signal.SIGKILL)
os.umask(0)
import disc_riider_py as m  # noqa: E402


def s(h):
    return bytes.fromhex(h[1:]).decode("utf-8", "surrogateescape")


def h(x):
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogateescape")
    return "x" + bytes(x).hex()


ex = None
limit = 0


def limited(f):
    """Runs f with the one-time limit on file sizes, as a full disk would have it."""
    global limit
    n, limit = limit, 0
    if not n:
        return f()
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        return f()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def run(t):
    global ex, limit
    c = t[0]
    if c == "L":
        limit = int(t[1])
        return ["ok"]
    if c == "N":
        ex = None
        ex = m.WiiIsoExtractor(s(t[1]))
        return ["ok"]
    if c == "P":
        ex.prepare_extract_section(s(t[1]))
        return ["ok"]
    if c == "H":
        return ["ok", h(bytes(ex.get_dol_hash(s(t[1]))))]
    if c == "F":
        mode = t[2]
        chosen = {s(x) for x in t[3].split(",") if x}
        seen = []

        def cb(path):
            seen.append(path)
            hit = path in chosen
            if mode == "b":
                return hit
            if mode == "t":
                return [0] if hit else ("", None, 0, [])[len(seen) % 4]
            if not hit:
                raise RuntimeError("filter failed")
            return True

        ex.remove_files_by_callback(s(t[1]), cb)
        return ["ok", ",".join(h(x) for x in seen)]
    if c in "ER":
        prog = []
        mode = t[3]

        def cb(p):
            prog.append(p)
            if len(prog) > 1_000_000:
                # it would never end
                os.kill(os.getpid(), signal.SIGKILL)
            if mode == "x":
                raise RuntimeError("progress failed")

        if c == "E":
            # the destination is given as str or as a path object
            d = s(t[1]) if t[2] == "s" else pathlib.Path(s(t[1]))
            limited(lambda: ex.extract_to(d, cb))
        else:
            k = str if len(t) < 5 or t[4] == "s" else pathlib.Path
            limited(lambda: m.rebuild_from_directory(k(s(t[1])), k(s(t[2])), cb))
        return ["ok", ",".join(str(x) for x in prog)]
    raise SystemExit("bad command")


out = os.fdopen(os.dup(1), "w", buffering=1)
os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
for line in sys.stdin:
    t = line.rstrip("\n").split(" ")
    try:
        r = run(t)
    except SystemExit:
        raise
    except BaseException as e:
        k = type(e).__name__
        r = ["panic" if "Panic" in k else "err", k, h(str(e))]
    out.write(" ".join(r) + "\n")
    out.flush()
