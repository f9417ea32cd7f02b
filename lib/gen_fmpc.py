"""Random FMPC cases: constrained polynomial problems, settings, initial variables."""
from vlib import *
from gen_ddp import mono, rnd, spd_quad, problem, t_prob, j_prob, reuse, calm, homogeneous, sparse, START

NAN = float("nan")
INF = float("inf")
DEFCF = dict(nan=1, init=0, upd=1, brk=0, ls=0, lagr=0, thre=1e-4)


def unit(nx, nut, ngt):
    return ("fmpc.cpp", ("NX=%d" % nx, "NUT=%d" % nut, "NGT=%d" % ngt))


def handler(nx, nut, ngt):
    return "fmpc%dx%sx%s" % (nx, "D" if nut < 0 else nut, "D" if ngt < 0 else ngt)


SHAPES_Q = [(2, 1, 2), (2, -1, -1), (1, 1, 1), (2, 2, -1), (4, -1, -1)]
SHAPES_T = SHAPES_Q + [(3, 2, 3), (2, -1, 2), (3, -1, -1), (1, 2, 1)]


def peval(p, z):
    s = 0.0
    for c, e in p:
        q = 1.0
        for i, k in enumerate(e):
            for _ in range(k):
                q *= z[i]
        s += c * q
    return s


def fproblem(r, shape, kind, zero=True):
    nx, nut, ngt = shape
    nm = r.choice([1, 1, 2, 3])
    nus = [nut if nut > 0 else r.choice([0, 1, 1, 2, 2] if zero else [1, 2]) for _ in range(nm)]
    ngs = [ngt if ngt > 0 else r.choice([0, 0, 1, 2, 3] if zero else [1, 2]) for _ in range(nm)]
    if zero and ngt < 0 and r.random() < 0.15:
        ngs = [0] * nm
    if nx >= 4:
        nm = r.choice([1, 2, 5])
        nus = [r.choice([0, 1, 3, 4] if zero else [1, 3, 4]) for _ in range(nm)]
        ngs = [r.choice([0, 2, 4, 6] if zero else [2, 4, 6]) for _ in range(nm)]
    P = problem(r, nx, nus, kind)
    for m, ng in zip(P["modes"], ngs):
        n = 1 + nx + m["nu"]
        m["ng"] = ng
        m["g"] = []
        for _ in range(ng):
            p = [mono(n, rnd(r, 1.0), 1 + k) for k in range(nx + m["nu"]) if r.random() < 0.7]
            p.append(mono(n, -abs(rnd(r, 2.0)) + rnd(r, 0.3)))
            if r.random() < 0.4:
                p.append(mono(n, rnd(r, 0.3), 0))
            if kind != "lq" and r.random() < 0.6:
                p.append(mono(n, rnd(r, 0.4), *[1 + r.randrange(nx + m["nu"]) for _ in range(2)]))
            m["g"].append(p)
    return P, nus, ngs


def t_cfg(N, mi, pr, cf):
    return " ".join(str(v) for v in (N, mi, pr, cf["nan"], cf["init"], cf["upd"], cf["brk"], cf["ls"], cf["lagr"])) + " " + hexd(cf["thre"])


def j_cfg(cf):
    d = {k: bool(cf[k]) for k in ("nan", "init", "upd", "brk", "ls", "lagr")}
    d["thre"] = jd(cf["thre"])
    return d


def t_var(v, hs):
    return " ".join([str(hs)] + [tvs(v[k]) for k in ("x", "u", "lam", "s", "nu")])


def j_var(v):
    return {k: jvs(v[k]) for k in ("x", "u", "lam", "s", "nu")}


def config(r):
    cf = dict(DEFCF)
    cf["init"] = r.choice([0, 0, 1])
    cf["upd"] = r.choice([1, 1, 0])
    cf["nan"] = r.choice([1, 1, 1, 0])
    cf["ls"] = r.choice([0, 0, 1])
    cf["lagr"] = r.choice([0, 1])
    cf["brk"] = r.choice([0, 0, 1])
    cf["thre"] = r.choice([1e-4, 1e-4, 1e-8, 1e-2, 0.5, 0.0])
    return cf


def variable(r, P, nus, ngs, m0, N, t0, x0, style, special=""):
    nm = len(nus)
    s_ = P["unit"] if special == "pico" else START[special][0] / 3 if special in START else r.choice([0.3, 1.0, 2.0])
    us = [[rnd(r, s_) for _ in range(nus[(m0 + i) % nm])] for i in range(N)]
    xs = [[rnd(r, s_) for _ in range(P["nx"])] for _ in range(N + 1)]
    if style != "rand":
        xs[0] = list(x0)
        for i in range(N):
            m = P["modes"][(m0 + i) % nm]
            z = [t0 + i * P["dt"]] + xs[i] + us[i]
            xs[i + 1] = [peval(p, z) for p in m["f"]]
    lam = [[rnd(r, s_) for _ in range(P["nx"])] for _ in range(N + 1)]
    if r.random() < 0.3:
        lam = [[0.0] * P["nx"] for _ in range(N + 1)]
    ss, nn = [], []
    for i in range(N):
        m = P["modes"][(m0 + i) % nm]
        z = [t0 + i * P["dt"]] + xs[i] + us[i]
        g = [peval(p, z) for p in m["g"]]
        ss.append([-v if (style == "feas" and v < -1e-3) else 10 ** r.uniform(-2, 1) for v in g])
        nn.append([10 ** r.uniform(-3, 1) for _ in g])
    if special == "pico":
        ss = [[v * P["unit"] for v in e] for e in ss]
    k = 1.0 if special == "pico" else r.random()
    if k < 0.08:                              # complementarity products beyond the clamping range of the barrier
        ss = [[10 ** r.uniform(2, 4) for _ in e] for e in ss]
        nn = [[10 ** r.uniform(3, 5) for _ in e] for e in nn]
    elif k < 0.14:
        ss = [[10 ** r.uniform(-5, -2) for _ in e] for e in ss]
        nn = [[10 ** r.uniform(-7, -4) for _ in e] for e in nn]
    if special == "distant":                  # limits far away
        a, b = r.uniform(4, 6), r.uniform(-14, -9)
        ss = [[10 ** (a + r.uniform(-1, 1)) for _ in e] for e in ss]
        nn = [[10 ** (b + r.uniform(-1, 1)) for _ in e] for e in nn]
    return {"x": xs, "u": us, "lam": lam, "s": ss, "nu": nn}


def make_case(shape, P, N, t0, m0, cf, x0, v, K, tag, lq, default=False, hs=None, flags=0):
    if not cf["init"] and not cf["upd"]:
        flags = 0                             # a barrier value is carried over
    line = " ".join([handler(*shape), t_prob(P, t0 - m0 * P["dt"]), "P", t_cfg(N, 0, 0, cf if not default else dict(cf, nan=-1)),
                     hexd(t0), tv(x0), t_var(v, N if hs is None else hs), str(K), str(flags | (16 if default else 0))])
    js = {"P": j_prob(P), "t0": jd(t0), "m0": m0, "N": N, "x0": jv(x0), "v": j_var(v), "cf": j_cfg(cf), "lq": lq, "tag": tag, "reused": bool(flags & 32),
          "crash": "", "runs": []}
    return {"line": line, "js": js, "unit": unit(*shape), "default": default}


def with_coefficients(line):
    head, flags = line.rsplit(" ", 1)
    return head + " " + str(int(flags) | 1 << 16)


def cliff(r, P):
    """costs (or constraints) undefined beyond a distance: a pair of terms that cancel until they overflow"""
    e = 2 * r.choice([150, 200, 300, 450, 550])
    for m in P["modes"] + [None]:
        n = 1 + P["nx"] + (m["nu"] if m else 0)
        v = 1 + r.randrange(n - 1)
        p = m["l"] if m else P["phi"]
        if m and r.random() < 0.3:
            p = r.choice(m["f"] + m["g"])
        ex = [e if q == v else 0 for q in range(n)]
        if r.random() < 0.7:
            p[:0] = [(1.0, ex), (-1.0, ex)]


def base(r, shape, kind, zero=True, special=""):
    P, nus, ngs = fproblem(r, shape, kind, zero)
    N = r.choice([0, 1, 2, 3, 4, 5])
    t0 = r.choice([0.0, 0.0, round(r.uniform(-2, 2), 2)])
    if special == "far":
        t0 = r.choice([40.0, 250.5, -30.25, 1000.0])
        calm(P, t0)
    if special == "long":
        N = r.choice([9, 12, 20, 33, 50, 64])
        calm(P, 0.0, shape[0])
    if special in ("origin", "tiny", "pico"):
        homogeneous(P)
    if special == "pico":                     # everything small, limits included
        P["unit"] = 10 ** r.uniform(-12, -9)
        for m in P["modes"]:
            m["g"] = [[(c * P["unit"] if sum(e[1:]) == 0 else c, e) for c, e in p] for p in m["g"]]
    if special == "distant":
        for m in P["modes"]:
            m["g"] = [[(c * 10 ** r.uniform(4, 7) if sum(e) == 0 else c, e) for c, e in p] for p in m["g"]]
    if special == "saddle":                   # the last input Hessian has zeros on its diagonal
        N = max(N, 1)
        m0 = r.randrange(len(nus))
        m = P["modes"][(m0 + N - 1) % len(nus)]
        a = 1 + P["nx"]
        m["l"] = [q for q in m["l"] if sum(q[1][a:]) < 2] + [mono(a + m["nu"], rnd(r, 2.0) or 1.0, a, a + 1)]
        m["g"] = [[q for q in p if sum(q[1][a:]) == 0] for p in m["g"]]
        P["phi"] = [q for q in P["phi"] if sum(q[1][1:]) < 2]
        return P, nus, ngs, N, t0, m0, [rnd(r, 1.5) for _ in range(P["nx"])]
    if special == "sparse":
        sparse(r, P)
    if special == "cliff":
        cliff(r, P)
    m0 = r.randrange(len(nus))
    x0 = [rnd(r, P.get("unit") or START.get(special, (1.5, 0))[0]) for _ in range(P["nx"])]
    return P, nus, ngs, N, t0, m0, x0


def prefix_case(r, shape, kind, ls=None, special=""):
    if special == "big":
        kind = "lq"
    P, nus, ngs, N, t0, m0, x0 = base(r, shape, kind, special=special)
    cf = config(r)
    if ls is not None:
        cf["ls"] = ls
    default = r.random() < 0.15
    if default:
        cf = dict(DEFCF)
    if special in ("pico", "distant"):
        cf.update(thre=0.0, init=0, upd=1)
    style = r.choice(["rand", "roll", "feas"])
    v = variable(r, P, nus, ngs, m0, N, t0, x0, style, special)
    if cf["init"] and r.random() < 0.4:       # the supplied slacks do not matter
        for k in ("s", "nu"):
            v[k] = [[rnd(r, 1.0) for _ in e] for e in v[k]]
            if shape[2] < 0 and r.random() < 0.5:
                v[k] = [[1.0] * r.randrange(4) for e in v[k]]
    K = {"long": r.choice([2, 4]), "many": 40, "distant": 1}.get(special) or r.choice([3, 5, 8, 12])
    return make_case(shape, P, N, t0, m0, cf, x0, v, K, (special or kind) + " " + style, kind == "lq", default,
                     hs=r.choice([N, N, -1, N + 2]), flags=reuse(r))


def nan_case(r, shape, k=None):
    P, nus, ngs, N, t0, m0, x0 = base(r, shape, r.choice(["lq", "mild"]), zero=False)
    N = max(1, N)
    cf = config(r)
    v = variable(r, P, nus, ngs, m0, N, t0, x0, r.choice(["rand", "roll"]))
    bad = r.choice([NAN, NAN, INF, -INF, 1e200])
    k = k or r.choice(["x0", "x", "u", "lam", "f", "l", "g", "s0", "nu0", "nuinf", "snan", "tiny", "nuhuge", "nuhuge", "phi"])
    if k == "x0":
        x0[r.randrange(len(x0))] = bad
    elif k in ("x", "u", "lam"):
        e = r.choice([e for e in v[k] if e])
        e[r.randrange(len(e))] = bad
    elif k == "phi":
        P["phi"][r.randrange(len(P["phi"]))] = (bad, P["phi"][0][1])
    elif k in ("f", "g"):
        m = r.choice(P["modes"])
        p = r.choice(m[k])
        p[r.randrange(len(p))] = (bad, p[0][1])
    elif k == "l":
        m = r.choice(P["modes"])
        m["l"][r.randrange(len(m["l"]))] = (bad, m["l"][0][1])
    elif k == "nuhuge":
        cf.update(nan=0, init=0)
        for e in v["nu"]:
            for j in range(len(e)):
                if r.random() < 0.6:
                    e[j] = 10 ** r.uniform(300, 308.2)
    else:
        e = r.choice(v["nu" if k[:2] == "nu" else "s"])
        e[r.randrange(len(e))] = {"s0": 0.0, "nu0": 0.0, "nuinf": INF, "snan": NAN, "tiny": r.choice([1e-300, 1e-308, 1e-305])}[k]
    return make_case(shape, P, N, t0, m0, cf, x0, v, r.choice([2, 4]), "nan " + k, False, flags=reuse(r))
