"""Shared machinery of the checks: encoding, building the harness from /repo, running it, running TLC."""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
INC = ["nmpc_ddp", "nmpc_fmpc", "nmpc_cgmres"]


class CheckError(Exception):
    """The machinery itself failed (neither held nor violated)."""


class DoesNotCompile(Exception):
    """A supported instantiation of the library does not compile any more."""


# ------------------------------------------------------------------ doubles
def hexd(x):
    return struct.pack(">d", x).hex()


def jd(x):
    """double -> [hi, lo] as signed 32-bit integers (the specification's representation)"""
    x = float(x)
    return list(struct.unpack(">ii", struct.pack(">d", x if x == x else float("nan"))))     # one NaN, as the harness prints it


def unjd(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def jv(v):
    return [jd(x) for x in v]


def jvs(l):
    return [jv(v) for v in l]


def tv(v):
    return " ".join([str(len(v))] + [hexd(x) for x in v])


def tvs(l):
    return " ".join([str(len(l))] + [tv(v) for v in l])


def tm(rows, r, c):
    return " ".join([str(r), str(c)] + [hexd(rows[i][j]) for i in range(r) for j in range(c)])


def jm(rows, r, c):
    return {"r": r, "c": c, "d": [jd(rows[i][j]) for i in range(r) for j in range(c)]}


# ------------------------------------------------------------------ polynomials: list of (c, [e...])
def jp(p):
    return [{"c": jd(c), "e": list(e)} for c, e in p]


def tp(p):
    return " ".join([str(len(p))] + [" ".join([hexd(c), str(len(e))] + [str(k) for k in e]) for c, e in p])


def jps(l):
    return [jp(p) for p in l]


def tps(l):
    return " ".join([str(len(l))] + [tp(p) for p in l])


# ------------------------------------------------------------------ building
def _hash_tree():
    h = hashlib.sha256()
    for inc in INC:
        for root, ds, fs in os.walk(os.path.join(REPO, inc, "include")):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
        for sub in ("src",):
            d = os.path.join(REPO, inc, sub)
            for root, ds, fs in os.walk(d):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".cpp", ".h", ".hpp")):
                        p = os.path.join(root, f)
                        h.update(os.path.relpath(p, REPO).encode())
                        h.update(open(p, "rb").read())
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        h.update(f.encode())
        h.update(open(os.path.join(VERIF, "harness", f), "rb").read())
    return h.hexdigest()[:20]


FLAGS = ["-std=c++17", "-O1", "-I/usr/include/eigen3"] + ["-I%s/%s/include" % (REPO, i) for i in INC]


def build(units):
    """units: list of (source, defines tuple, extra sources). Returns the path of the linked harness."""
    os.makedirs(CACHE, exist_ok=True)
    tree = _hash_tree()
    units = sorted(set(units)) + [("main.cpp", ()), ("poison.cpp", ())]
    if any(u[0] == "cgmres.cpp" for u in units):      # the compiled part of the library
        src = os.path.join(REPO, "nmpc_cgmres", "src")
        units += [(os.path.join(root, f), ()) for root, _, fs in sorted(os.walk(src)) for f in sorted(fs)
                  if f.endswith((".cpp", ".cc", ".cxx"))]
    key = hashlib.sha256(repr((tree, units, FLAGS)).encode()).hexdigest()[:16]
    exe = os.path.join(CACHE, "h_" + key)
    if os.path.exists(exe):
        return exe
    d = tempfile.mkdtemp(prefix="b_", dir=CACHE)

    def one(k):
        src, defs = units[k]
        path = src if src.startswith("/") else os.path.join(VERIF, "harness", src)
        okey = hashlib.sha256(repr((tree, src, defs, FLAGS)).encode()).hexdigest()[:16]
        obj = os.path.join(CACHE, "o_" + okey + ".o")
        if not os.path.exists(obj):
            tmp = os.path.join(d, "%d.o" % k)
            for _ in range(3):
                r = subprocess.run(["g++"] + FLAGS + ["-D" + x for x in defs] + ["-c", path, "-o", tmp],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 0:
                    break
                if re.search(r"^[^ ]*:\d+:\d+: (fatal )?error:", r.stdout, re.M) is None:
                    continue          # not a diagnosis of the source (e.g. compiler killed)
                raise DoesNotCompile("compiling %s %s failed:\n%s" % (src, defs, r.stdout[-3000:]))
            if r.returncode:
                raise CheckError("compiling %s %s failed:\n%s" % (src, defs, r.stdout[-3000:]))
            os.rename(tmp, obj)
        return obj

    try:
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, range(len(units))))
        tmp = os.path.join(d, "exe")
        r = subprocess.run(["g++"] + objs + ["-Wl,--wrap=malloc", "-rdynamic", "-pthread", "-ldl", "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("linking failed:\n" + r.stdout[-3000:])
        os.rename(tmp, exe)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return exe


# ------------------------------------------------------------------ running the implementation
def _run_part(exe, lines, d, tag):
    inp = os.path.join(d, "in%s" % tag)
    outp = os.path.join(d, "out%s" % tag)
    with open(inp, "w") as f:
        f.write("\n".join(lines) + "\n")
    res = [None] * len(lines)
    first = 0
    crashes = 0
    while first < len(lines):
        open(outp, "w").close()
        p = subprocess.run([exe, inp, outp, str(first)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
        last = first - 1
        for l in open(outp):
            k, j = l.split(" ", 1)
            try:
                res[int(k)] = json.loads(j)
            except ValueError:
                break
            last = int(k)
        if p.returncode == 3:
            raise CheckError("harness: " + p.stdout.decode(errors="replace")[-500:])
        if p.returncode == 0 and last == len(lines) - 1:
            break
        bad = last + 1
        what = "hang" if p.returncode == -14 else "crash (%d) %s" % (
            p.returncode, " ".join(p.stdout.decode(errors="replace").split())[-200:])
        res[bad] = {"crash": what}
        first = bad + 1
        crashes += 1
        if crashes >= 5:      # enough evidence; do not spend the time budget on repetitions
            for i in range(first, len(lines)):
                res[i] = {"skipped": 1}
            break
    return res


def run_harness(exe, lines, par=8):
    """Executes the cases; returns one decoded JSON value per case ({'crash': ...} if it did not return)."""
    d = tempfile.mkdtemp(prefix="r_", dir=CACHE)
    try:
        n = len(lines)
        par = max(1, min(par, n))
        idx = [list(range(k, n, par)) for k in range(par)]
        with ThreadPoolExecutor(par) as ex:
            parts = list(ex.map(lambda k: _run_part(exe, [lines[i] for i in idx[k]], d, str(k)), range(par)))
        res = [None] * n
        for k in range(par):
            for i, r in zip(idx[k], parts[k]):
                res[i] = r
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ TLC
def classes():
    os.makedirs(CACHE, exist_ok=True)
    h = hashlib.sha256()
    srcs = sorted(os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java"))
    for s in srcs:
        h.update(open(s, "rb").read())
    out = os.path.join(CACHE, "cls_" + h.hexdigest()[:12])
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="c_", dir=CACHE)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", tmp] + srcs, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stdout[-2000:])
        os.rename(tmp, out)
    return out


def reference_module(d):
    """LinAlg and Poly with every operator renamed R_<name>: evaluated by TLC itself, without Java overrides."""
    txt = ""
    for m in ("LinAlg", "Poly"):
        body = open(os.path.join(SPEC, m + ".tla")).read()
        body = body[body.index("EXTENDS"):]
        body = body[body.index("\n"):]
        body = body[:body.rindex("====")].rstrip("=\n ")
        txt += body + "\n"
    names = set(re.findall(r"^(?:RECURSIVE )?([A-Za-z_][A-Za-z0-9_]*)(?:\([^=]*?\))?\s*==", txt, re.M))
    names |= set(re.findall(r"^RECURSIVE ([A-Za-z0-9_]+)", txt, re.M))
    txt = re.sub(r"\b(%s)\b" % "|".join(sorted(names, key=len, reverse=True)), r"R_\1", txt)
    with open(os.path.join(d, "PolyRef.tla"), "w") as f:
        f.write("---- MODULE PolyRef ----\nEXTENDS F64, Sequences, TLC\n" + txt + "\n====\n")


def tlc(module, cfg, env=None, workers=8, timeout=800, heap="8g", extra=()):
    """Runs TLC; returns dict(ok, states, distinct, violation=<text>|None, out)."""
    d = tempfile.mkdtemp(prefix="t_", dir=CACHE)
    try:
        if module == "MC_LinAlg":
            reference_module(d)
        cf = os.path.join(d, module + ".cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=%s" % SPEC, "-Djava.io.tmpdir=" + d,
               "-cp", TLA + ":" + classes(), "tlc2.TLC", "-workers", str(workers), "-config", cf,
               "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE"] + list(extra) + [os.path.join(d, module + ".tla")]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=d,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s: time limit" % module)
        out = p.stdout
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        r = {"states": gen, "distinct": dist, "out": out, "rc": p.returncode, "violation": None, "ok": False}
        if "No error has been found" in out and p.returncode == 0:
            r["ok"] = True
        elif re.search(r"Invariant \S+ is violated|Temporal properties were violated|Temporal property .* violated|"
                       r"Action property \S+ is violated", out):
            k = out.index("Error:")
            r["violation"] = out[k:]
        else:
            raise CheckError("TLC %s failed (rc %d):\n%s" % (module, p.returncode, out[-4000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cfg_text(consts, spec="Spec", inv=("Conforms",), post="Examined", props=(), deadlock=False):
    s = "SPECIFICATION %s\n" % spec
    for k, v in consts.items():
        s += "CONSTANT %s = %s\n" % (k, v)
    for i in inv:
        s += "INVARIANT %s\n" % i
    for i in props:
        s += "PROPERTY %s\n" % i
    if post:
        s += "POSTCONDITION %s\n" % post
    if not deadlock:
        s += "CHECK_DEADLOCK FALSE\n"
    return s


def last_state(violation):
    """variables of the last state of TLC's error trace, as text"""
    blocks = re.split(r"^State \d+:.*$", violation, flags=re.M)
    res = {}
    for m in re.finditer(r"^(?:/\\ )?(\w+) = (.*?)(?=^/\\ \w+ = |^\w+ = |^\s*$|\Z)", blocks[-1], re.M | re.S):
        res[m.group(1)] = " ".join(m.group(2).split())
    return res
