"""Cases for box QP, GMRES, integrators and the L1 directional derivative."""
from vlib import *
from tlagen import enumerate_cases
from gen_ddp import mono, rnd

UNIT = ("small.cpp", ())
INF = float("inf")


def grid(kind):
    return enumerate_cases("GenSmall", {"Kind": '"%s"' % kind})["cases"]


# ------------------------------------------------------------------ box QP
def box_case(dim, solves, tag):
    """solves: (fresh, print, maxIter, withGuess, H rows, g, lo, hi, x0)"""
    line = ["box", str(dim), str(len(solves))]
    ins = []
    for fresh, pr, mi, guess, H, g, lo, hi, x0 in solves:
        n = len(g)
        line += [str(fresh), str(pr), str(mi), str(guess), tm(H, n, n), tv(g), tv(lo), tv(hi), tv(x0)]
        ins.append({"H": jm(H, n, n), "g": jv(g), "lo": jv(lo), "hi": jv(hi),
                    "x0": jv(x0 if guess else [0.0] * n), "maxIter": mi, "print": pr})
    return {"line": " ".join(line), "js": {"in": ins, "tag": tag, "crash": "", "runs": []}, "unit": UNIT}


def box_grid(r, cases, tag):
    """several enumerated problems per solver object"""
    out = []
    buf = []
    for c in cases:
        n = len(c["g"])
        H = [[float(c["H"][i * n + j]) for j in range(n)] for i in range(n)]
        lo = [-INF if b[0] == -9 else float(b[0]) for b in c["b"]]
        hi = [INF if b[1] == 9 else float(b[1]) for b in c["b"]]
        guess = 0 if all(x == 0 for x in c["x0"]) and r.random() < 0.5 else 1
        buf.append((r.choice([0, 0, 1]), r.choice([0, 0, 0, 1, 2, 3]), 500, guess, H, [float(x) for x in c["g"]], lo, hi,
                    [float(x) for x in c["x0"]]))
        if len(buf) == 4:
            out.append(box_case(r.choice([n, n, -1]), buf, tag))
            buf = []
    if buf:
        out.append(box_case(len(buf[0][5]), buf, tag))
    return out


def box_random(r, only=None):
    """only: one solve of that dimension"""
    dim = only or r.choice([1, 2, 2, 3, 3, 4] * 4 + [6, 9])
    k = 1 if only else r.choice([1, 2, 3])
    solves = []
    for _ in range(k):
        n = dim
        s = 10 ** r.uniform(-3, 3)
        B = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        reg = 10 ** r.uniform(-4, 0)
        H = [[s * (sum(B[q][i] * B[q][j] for q in range(n)) + (reg if i == j else 0)) for j in range(n)] for i in range(n)]
        H = [[(H[i][j] + H[j][i]) / 2 for j in range(n)] for i in range(n)]
        if r.random() < 0.15:                       # indefinite
            i = r.randrange(n)
            H[i][i] -= s * r.uniform(0.5, 3)
        g = [s * r.uniform(-1, 1) for _ in range(n)]
        if r.random() < 0.2:                        # variables of very different weight
            d = [10 ** r.uniform(-3, 2) for _ in range(n)]
            H = [[H[i][j] * d[i] * d[j] for j in range(n)] for i in range(n)]
            g = [g[i] * d[i] for i in range(n)]
        lo, hi, x0 = [], [], []
        for i in range(n):
            a = r.uniform(-1, 1)
            l, h = a - r.uniform(0, 1), a + r.uniform(0, 1)
            m = r.random()
            if m < 0.08:
                h = l
            elif m < 0.16:
                h = INF
            elif m < 0.24:
                l = -INF
            lo.append(l)
            hi.append(h)
            e = 10 ** r.uniform(-16, 0)
            fl = l if l > -INF else -1.0
            fh = h if h < INF else 1.0
            x0.append(r.choice([fl, fh, fl + e, fh - e, r.uniform(-3, 3), 0.0]))
        if r.random() < 0.2:                        # minimum close to a bound, guess close to the minimum
            xs = [r.uniform(-1, 1) for _ in range(n)]
            g = [-sum(H[i][j] * xs[j] for j in range(n)) for i in range(n)]
            sp = 10 ** r.uniform(-7, -3)
            for i in range(n):
                e = sp * r.uniform(0.1, 10)
                if r.random() < 0.5:
                    lo[i], hi[i] = (xs[i] + e, xs[i] + 1) if r.random() < 0.5 else (xs[i] - 1, xs[i] - e)
                else:
                    lo[i], hi[i] = xs[i] - r.uniform(0.1, 2), xs[i] + r.uniform(0.1, 2)
                x0[i] = xs[i] + sp * r.uniform(-20, 20)
        if r.random() < 0.12:                       # a small box: objective values far below one
            u = 10 ** r.uniform(-6, -2)
            g, lo, hi, x0 = ([u * v for v in w] for w in (g, lo, hi, x0))
        solves.append((r.choice([0, 0, 1]), r.choice([0, 0, 0, 1, 2, 3]), r.choice([500, 500, 500, 1, 2, 3]), r.choice([0, 1, 1, 1]), H, g, lo, hi, x0))
    if only:
        return solves[0]
    return box_case(dim if dim <= 3 and r.random() < 0.5 else -1, solves, "random")


# ------------------------------------------------------------------ GMRES
def gm_case(solves, tag):
    """solves: (fresh, func, tri, reorth, kmax, eps, A, b, x0)"""
    line = ["gmres", str(len(solves))]
    ins = []
    for fresh, fn, tri, re_, k, eps, A, b, x0 in solves:
        n = len(b)
        line += [str(fresh), str(fn), str(tri), str(re_), str(k), hexd(eps), tm(A, n, n), tv(b), tv(x0)]
        ins.append({"A": jm(A, n, n), "b": jv(b), "x0": jv(x0), "kmax": k, "eps": jd(eps if k >= 0 else 1e-10)})
    return {"line": " ".join(line), "js": {"in": ins, "tag": tag, "crash": "", "runs": []}, "unit": UNIT}


def gm_grid(r, cases, tag):
    out = []
    buf = []
    for c in cases:
        n = c["n"]
        A = [[float(c["A"][i * n + j]) for j in range(n)] for i in range(n)]
        buf.append((r.choice([0, 0, 1]), r.randrange(2), r.randrange(2), r.randrange(2), c["k"], r.choice([1e-10, 1e-6]), A,
                    [float(x) for x in c["b"]], [float(x) for x in c["x0"]]))
        if len(buf) == 4:
            out.append(gm_case(buf, tag))
            buf = []
    if buf:
        out.append(gm_case(buf, tag))
    return out


def gm_random(r):
    solves = []
    for _ in range(r.choice([1, 2, 3])):
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 8, 12, 20])
        s = 10 ** r.uniform(-2, 2)
        A = [[s * r.uniform(-1, 1) / n for j in range(n)] for i in range(n)]
        for i in range(n):
            A[i][i] += s * r.choice([1.0, 1.0, 2.0, -1.0]) * 1.5
        m, near = r.random(), False
        if m < 0.1:
            A = [[s if i == j else 0.0 for j in range(n)] for i in range(n)]
        elif m < 0.25:                               # few distinct eigenvalues: early exhaustion
            A = [[0.0] * n for _ in range(n)]
            for i in range(n):
                A[i][i] = s * r.choice([1.0, 2.0])
        elif m < 0.35:                               # cyclic shift: no progress until the last step
            A = [[s if j == (i + 1) % n else 0.0 for j in range(n)] for i in range(n)]
        elif m < 0.45 and n > 1:                     # close to singular: nothing but the last step gets there
            near = True
            i, j = r.sample(range(n), 2)
            A[i] = [x + s * 10 ** r.uniform(-4, -1.5) * r.uniform(-1, 1) for x in A[j]]
        b = [r.uniform(-1, 1) for _ in range(n)]
        x0 = [r.uniform(-1, 1) for _ in range(n)]
        m = r.random()
        if m < 0.15:
            b = [0.0] * n
        elif m < 0.3:
            b = [sum(A[i][j] * x0[j] for j in range(n)) for i in range(n)]
        elif m < 0.4:
            b = [1e-8 * x for x in b]
        if r.random() < 0.3:
            x0 = [0.0] * n
        k = r.choice([-1, n, n, n + 3, max(1, n - 1), max(1, n // 2), 1, 0])
        eps = r.choice([1e-10, 1e-10, 1e-6, 1e-2, 0.5, 0.0, 1e-15])
        if near and r.random() < 0.5:
            k, eps = n + r.choice([1, 5, 80]), r.choice([0.0, 1e-15])
        solves.append((r.choice([0, 0, 1]), r.randrange(2), r.randrange(2), r.randrange(2), k, eps, A, b, x0))
    return gm_case(solves, "random")


# ------------------------------------------------------------------ integrators
def ode_case(r, n=None):
    n = n if n is not None else r.choice([1, 2, 3, 4, 4, 7, 12])
    m = r.choice([0, 1, 2, 5])
    nz = 1 + n + m
    f = []
    for _ in range(n):
        f.append([mono(nz, rnd(r, 1.0), *[r.randrange(nz) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))])
                  for _ in range(r.randrange(1, 5))] + [mono(nz, rnd(r, 1.0), 0, r.randrange(nz))])
    kind, alias = r.randrange(2), r.randrange(2)
    t = r.choice([0.0, rnd(r, 3.0)])
    x = [rnd(r, 1.5) for _ in range(n)]
    u = [rnd(r, 1.5) for _ in range(m)]
    dt = r.choice([1.0, 0.1, -0.1, -0.5, 0.01, 0.0, 1e-3, rnd(r, 1.0)])
    nest = r.choice([0, 0, 1, 2, 3])         # the equation integrates something itself: with no, the same, another, the other solver
    line = " ".join(["ode", str(kind), str(alias), str(nest), hexd(t), tv(x), tv(u), hexd(dt), tps(f)])
    js = {"in": [{"kind": kind, "alias": bool(alias), "nest": nest, "t": jd(t), "x": jv(x), "u": jv(u), "dt": jd(dt), "f": jps(f)}],
          "tag": "ode", "crash": "", "runs": []}
    return {"line": line, "js": js, "unit": UNIT}


# ------------------------------------------------------------------ L1
def l1_case(fixed, f, J, d, quot, pattern):
    m, n = len(f), len(d)
    line = " ".join(["l1", str(fixed), tv(f), tm(J, m, n), tv(d)])
    js = {"in": [{"f": jv(f), "J": jm(J, m, n), "d": jv(d), "quot": quot, "pattern": pattern}], "tag": "l1", "crash": "",
          "runs": []}
    return {"line": line, "js": js, "unit": UNIT}


def pat(f):
    return "".join(sorted("+" if x > 0 else "-" if x < 0 else "0" for x in f)) or "empty"


def l1_grid(r):
    out = []
    for c in grid("l1"):
        m, n = len(c["f"]), len(c["d"])
        f = [float(x) for x in c["f"]]
        J = [[float(c["J"][i * n + j]) for j in range(n)] for i in range(m)]
        out.append(l1_case(r.randrange(2), f, J, [float(x) for x in c["d"]], True, pat(f)))
    return out


def l1_random(r):
    m, n = r.choice([(1, 1), (3, 2), (2, 3), (2, 2), (4, 3), (0, 2), (5, 1), (12, 4), (3, 0), (1, 8)])
    f = [r.choice([0.0, -0.0, r.uniform(-1, 1), r.uniform(-1, 1), 1e-300, -1e-300, 1e-12, 5e-324, -5e-324, 1e-310, -1e-310]) for _ in range(m)]
    J = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(m)]
    d = [r.uniform(-1, 1) for _ in range(n)]
    big = all(x == 0 or abs(x) > 1e-2 for x in f)
    return l1_case(r.randrange(2), f, J, d, big, pat(f))
