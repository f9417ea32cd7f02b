"""Random DDP cases: polynomial problems, configurations, initial guesses."""
import math
from vlib import *

NV = lambda nx, nu: 1 + nx + nu
DEF_ALPHAS = [10 ** (-3 * i / 10) for i in range(11)]
DEF = dict(lam0=1e-4, dlam0=1.0, fac=1.6, lmin=1e-6, lmax=1e10, kthre=1e-4, lthre=1e-5, rthre=0.0, cthre=1e-7)


def mono(n, c, *idx):
    e = [0] * n
    for i in idx:
        e[i] += 1
    return (c, e)


def rnd(r, s=1.0):
    return round(r.uniform(-s, s), 3 if s >= 0.01 else 7)


def spd_quad(r, n, first, m, lo, scale):
    """x'Ax/2-like terms over variables first..first+m-1, A = B'B + lo*I"""
    B = [[rnd(r, scale) for _ in range(m)] for _ in range(m)]
    out = []
    for i in range(m):
        for j in range(m):
            a = sum(B[k][i] * B[k][j] for k in range(m)) + (lo if i == j else 0.0)
            out.append(mono(n, 0.5 * a, first + i, first + j))
    return out


def problem(r, nx, nus, kind, ngs=None, lim=False):
    """kind: lq (affine, strictly convex), mild (nonlinear, convex-ish), wild (anything)"""
    P = {"nx": nx, "dt": r.choice([0.05, 0.1, 0.25, 0.5, 1.0, 0.1, 0.5, 0.01, 0.002]), "modes": []}
    dt = P["dt"]
    for nu in nus:
        n = NV(nx, nu)
        f = []
        for j in range(nx):
            p = [mono(n, 1.0, 1 + j)]
            for k in range(nx):
                p.append(mono(n, dt * rnd(r, 0.8), 1 + k))
            for k in range(nu):
                p.append(mono(n, rnd(r, 1.0), 1 + nx + k))
            p.append(mono(n, rnd(r, 0.2)))
            p.append(mono(n, rnd(r, 0.2), 0))                       # explicit time
            if r.random() < 0.6:
                p.append(mono(n, rnd(r, 0.2), 0, 1 + r.randrange(nx)))
            if kind != "lq":
                s = 0.15 if kind == "mild" else 0.6
                for _ in range(r.randrange(1, 4)):
                    deg = r.choice([2, 2, 3])
                    p.append(mono(n, rnd(r, s), *[1 + r.randrange(nx + nu) for _ in range(deg)]))
            f.append(p)
        # joint quadratic cost in (x, u)
        l = spd_quad(r, n, 1, nx + nu, 0.3 if kind != "wild" else 0.05, 0.5)
        for k in range(nx + nu):
            l.append(mono(n, rnd(r, 1.0), 1 + k))
        l.append(mono(n, rnd(r, 0.5), 0))
        if nu and r.random() < 0.7:
            l.append(mono(n, rnd(r, 0.5), 0, 1 + nx + r.randrange(nu)))
        l.append(mono(n, rnd(r, 0.5), 0, 1 + r.randrange(nx)))
        if kind == "mild":
            for k in range(nu):
                l.append(mono(n, abs(rnd(r, 0.1)), *[1 + nx + k] * 4))
            l.append(mono(n, abs(rnd(r, 0.1)), *[1 + r.randrange(nx)] * 4))
        if kind == "wild":
            for _ in range(3):
                l.append(mono(n, rnd(r, 1.0), *[1 + r.randrange(nx + nu) for _ in range(r.choice([2, 2, 3]))]))
            for k in range(nu):
                if r.random() < 0.5:
                    l.append(mono(n, rnd(r, 1.5), 1 + nx + k, 1 + nx + k))
                l.append(mono(n, 0.1, *[1 + nx + k] * 4))
            for k in range(nx):
                l.append(mono(n, 0.05, *[1 + k] * 4))
        lo, hi = [], []
        for k in range(nu):
            a = rnd(r, 1.5)
            w = abs(rnd(r, 1.5)) + 0.05
            c = rnd(r, 0.1)
            b = r.random()
            one = lim and b < 0.08
            lo.append([(-float("inf"), [0])] if one and b < 0.04 else [(a - w, [0]), (c, [1])])
            hi.append([(float("inf"), [0])] if one and b >= 0.02 else [(a + (w if not (lim and b > 0.96) else -w), [0]), (c, [1])])
        P["modes"].append({"nu": nu, "ng": 0, "f": f, "l": l, "g": [], "lo": lo, "hi": hi})
    n = 1 + nx
    phi = spd_quad(r, n, 1, nx, 0.2, 1.0)
    for k in range(nx):
        phi.append(mono(n, rnd(r, 1.0), 1 + k))
        phi.append(mono(n, rnd(r, 0.5), 0, 1 + k))
    if kind != "lq" and r.random() < 0.5:
        phi.append(mono(n, abs(rnd(r, 0.1)), *[1 + r.randrange(nx)] * 4))
    P["phi"] = phi
    P["nm"] = len(P["modes"])
    return P


def t_prob(P, tb):
    s = ["%d %s %s %d" % (P["nx"], hexd(P["dt"]), hexd(tb), len(P["modes"]))]
    for m in P["modes"]:
        s += ["%d %d" % (m["nu"], m["ng"]), tps(m["f"]), tp(m["l"]), tps(m["g"]), tps(m["lo"]), tps(m["hi"])]
        s.append(" ".join([str(len(m.get("tab", [])))] + [hexd(v) for e in m.get("tab", []) for v in e]))
    s.append(tp(P["phi"]))
    return " ".join(s)


def j_prob(P):
    return {"nx": P["nx"], "dt": jd(P["dt"]), "nm": len(P["modes"]), "phi": jp(P["phi"]),
            "modes": [{"nu": m["nu"], "ng": m["ng"], "f": jps(m["f"]), "l": jp(m["l"]), "g": jps(m["g"]),
                       "lo": jps(m["lo"]), "hi": jps(m["hi"]),
                       "tab": [dict(zip("ucgh", (jd(v) for v in e))) for e in m.get("tab", [])]} for m in P["modes"]]}


FK = ["lam0", "dlam0", "fac", "lmin", "lmax", "kthre", "lthre", "rthre", "cthre"]


def t_cfg(c):
    return " ".join([str(c[k]) for k in ("N", "maxIter", "reg", "lim", "second", "print")]
                    + [hexd(c[k]) for k in FK] + [tv(c["alphas"])])


def j_cfg(c):
    d = {k: jd(c[k]) for k in FK}
    d.update(alphas=jv(c["alphas"]), reg=c["reg"], lim=bool(c["lim"]))
    return d


def config(r, N, style):
    c = dict(DEF)
    c.update(N=N, maxIter=50, reg=r.choice([1, 2]), lim=0, second=0, print=0, alphas=list(DEF_ALPHAS))
    if style == "default":
        return c
    c["lam0"] = r.choice([0.0, 1e-8, 1e-6, 1e-4, 1e-2, 1.0, 10.0])
    c["dlam0"] = r.choice([1.0, 1.0, 0.3, 2.0, 1e-3, 5.0])
    c["fac"] = r.choice([1.6, 2.0, 1.1, 5.0, 10.0])
    c["lmin"] = r.choice([1e-6, 1e-3, 1e-9, 0.1])
    c["lmax"] = r.choice([1e10, 1e10, 1e3, 10.0, 1.0, 0.05])
    c["kthre"] = r.choice([1e-4, 1e-4, 1e-6, 1e-2, 0.3, 0.0])
    c["lthre"] = r.choice([1e-5, 1e-5, 1e-2, 10.0])
    c["rthre"] = r.choice([0.0, 0.0, 0.0, 0.1, 0.5, 0.9, 0.9, -0.5])
    c["cthre"] = r.choice([1e-7, 1e-7, 1e-3, 0.1, 0.0])
    k = r.random()
    if k < 0.4:
        c["alphas"] = r.choice([[1.0], [1.0, 0.5], [1.0, 0.5, 0.25, 0.125], [0.5, 0.1], [0.3, 1.0], [2.0, 1.0, 0.01], [1e-20], [1.5, 1e-18]])
    return c


def handler(nx, nut):
    return "ddp%dx%s" % (nx, "D" if nut < 0 else nut)


def unit(nx, nut):
    return ("ddp.cpp", ("NX=%d" % nx, "NUT=%d" % nut))


SHAPES_Q = [(1, 1), (2, 1), (2, 2), (2, -1), (2, -1), (4, -1)]
SHAPES_T = [(1, 1), (2, 1), (2, 2), (3, 2), (1, -1), (2, -1), (3, -1), (4, -1), (5, 3)]


def nus_for(r, nut, zero=True, big=False):
    if nut > 0:
        return [nut] * r.choice([1, 1, 2, 3])
    if big:
        return [r.choice([0, 1, 2, 3, 4, 5] if zero else [2, 3, 4, 5]) for _ in range(r.choice([1, 2, 3, 7]))]
    k = r.randrange(1, 5)
    pool = [0, 1, 1, 2, 2, 3] if zero else [1, 2, 3]
    return [r.choice(pool) for _ in range(k)]


def prefix_case(r, shape, kind, style="rand", lim=0, K=None, tag=None, N=None, default=False):
    nx, nut = shape
    nus = nus_for(r, nut, big=nx >= 4)
    P = problem(r, nx, nus, kind, lim=lim)
    N = N if N is not None else r.choice([1, 2, 3, 4, 5, 6])
    if kind == "wild":
        N = min(N, 5)
    t0 = r.choice([0.0, 0.0, round(r.uniform(-2, 2), 2), 3.0])
    if tag == "far":
        t0 = r.choice([40.0, 250.5, -30.25, 1000.0])
        calm(P, t0)
    if tag == "long":
        calm(P, 0.0, nx)
    if tag in ("origin", "tiny"):
        homogeneous(P)
    if tag == "sparse":
        sparse(r, P)
    m0 = r.randrange(len(nus))
    tb = t0 - m0 * P["dt"]
    cf = config(r, N, style)
    cf["lim"] = lim
    sx, su = START.get(tag, (2.0, 1.5))
    x0 = [rnd(r, sx) for _ in range(nx)]
    u0 = [[rnd(r, su) for _ in range(nus[(m0 + i) % len(nus)])] for i in range(N)]
    return make_case(P, shape, N, t0, m0, tb, cf, x0, u0, K or r.choice([4, 6, 8]), tag or kind, default, reuse(r))


def calm(P, t0, nx=0):
    """time dependence relative to t0, so that nothing blows up far from t = 0; stable dynamics for long horizons (nx > 0)"""
    for m in P["modes"]:
        for p in m["f"] + [m["l"]] + m["g"] + m["lo"] + m["hi"]:
            for k, (c, e) in enumerate(p):
                if e[0]:
                    s = 1.0 / (1.0 + abs(t0)) if t0 else 0.2
                    p[k] = (c * s ** e[0], e)
        if nx:
            for j, p in enumerate(m["f"]):
                for k, (c, e) in enumerate(p):
                    if sum(e) == 1 and e[1 + j]:
                        p[k] = (c if c != 1.0 else 0.9 - 0.5 * P["dt"], e)
    for k, (c, e) in enumerate(P["phi"]):
        if e[0]:
            P["phi"][k] = (c * (1.0 / (1.0 + abs(t0)) if t0 else 0.2) ** e[0], e)


def homogeneous(P):
    """nothing happens at x = 0, u = 0: no constant terms in the dynamics, no linear ones in the cost"""
    for m in P["modes"]:
        m["f"] = [[(c, e) for c, e in p if sum(e[1:]) >= 1] for p in m["f"]]
        m["l"] = [(c, e) for c, e in m["l"] if sum(e[1:]) >= 2]
    P["phi"] = [(c, e) for c, e in P["phi"] if sum(e[1:]) >= 2]


def sparse(r, P):
    """many coefficients of the dynamics and of the linear cost terms are zero"""
    for m in P["modes"]:
        m["f"] = [[(c, e) for c, e in p if r.random() < 0.5] for p in m["f"]]
        m["l"] = [(c, e) for c, e in m["l"] if sum(e[1:]) >= 2 or r.random() < 0.5]
    P["phi"] = [(c, e) for c, e in P["phi"] if sum(e[1:]) >= 2 or r.random() < 0.3]


# where special cases start: magnitude of the initial state, of the initial inputs
START = {"origin": (0.0, 0.0), "tiny": (1e-3, 1e-3), "big": (300.0, 100.0)}


def special_case(r, shape, tag, lim=0):
    return prefix_case(r, shape, "lq" if tag == "big" else r.choice(["lq", "mild"]), r.choice(["rand", "rand", "default"]), lim,
                       tag=tag, N=r.choice([0, 1, 2, 3, 5]))


def long_case(r, shape, lim=0):
    return prefix_case(r, shape, r.choice(["lq", "lq", "mild"]), r.choice(["rand", "default"]), lim, K=r.choice([2, 3]), tag="long",
                       N=r.choice([9, 12, 20, 33, 50, 64, 100]))


def far_case(r, shape, lim=0):
    return prefix_case(r, shape, r.choice(["lq", "mild"]), r.choice(["rand", "default"]), lim, K=r.choice([3, 5]), tag="far")


def many_case(r, shape, lim=0):
    """many iterations"""
    return prefix_case(r, shape, r.choice(["mild", "wild"]), "rand", lim, K=30, tag="many", N=r.choice([1, 2, 3]))


def reuse(r, p=0.35):
    """flags: the same solver object, which has solved something else before, for every run"""
    return 32 | r.randrange(60) << 6 if r.random() < p else 0


def make_case(P, shape, N, t0, m0, tb, cf, x0, u0, K, tag, default=False, flags=0):
    c2 = dict(cf)
    if default:
        c2["reg"] = -1
    line = " ".join([handler(*shape), t_prob(P, tb), "P", t_cfg(c2), hexd(t0), tv(x0), tvs(u0), str(K),
                     str(flags | (16 if default else 0))])
    js = {"P": j_prob(P), "t0": jd(t0), "m0": m0, "N": N, "x0": jv(x0), "u0": jvs(u0), "cf": j_cfg(cf), "tag": tag,
          "crash": "", "runs": []}
    return {"line": line, "js": js, "unit": unit(*shape), "default": default}


def nan_case(r, shape):
    """something is not a number, or overflows on the way"""
    nx, nut = shape
    nus = nus_for(r, nut, zero=False)
    P = problem(r, nx, nus, r.choice(["lq", "mild"]))
    N = r.choice([1, 2, 3, 4])
    t0 = r.choice([0.0, 1.5])
    m0 = r.randrange(len(nus))
    cf = config(r, N, r.choice(["rand", "default"]))
    cf["lim"] = r.choice([0, 0, 0, 1])
    x0 = [rnd(r, 2.0) for _ in range(nx)]
    u0 = [[rnd(r, 1.5) for _ in range(nus[(m0 + i) % len(nus)])] for i in range(N)]
    bad = r.choice([float("nan"), float("nan"), float("inf"), -float("inf"), 1e200])
    k = r.randrange(4)
    if k == 0:
        x0[r.randrange(nx)] = bad
    elif k == 1:
        i = r.randrange(N)
        u0[i][r.randrange(len(u0[i]))] = bad
    elif k == 2:
        m = r.choice(P["modes"])
        m["l"][r.randrange(len(m["l"]))] = (bad, m["l"][0][1])
    else:
        m = r.choice(P["modes"])
        q = r.choice(m["f"])
        q[r.randrange(len(q))] = (bad, q[0][1])
    if r.random() < 0.3:
        cf["lam0"] = 0.0
    return make_case(P, shape, N, t0, m0, t0 - m0 * P["dt"], cf, x0, u0, r.choice([2, 4]), "nan", flags=reuse(r))


def lq_case(r, shape):
    """strictly convex linear-quadratic, run to the end"""
    nx, nut = shape
    nus = nus_for(r, nut)
    P = problem(r, nx, nus, "lq")
    N = r.choice([1, 2, 3, 4, 6, 10])
    t0 = r.choice([0.0, round(r.uniform(-2, 2), 2)])
    m0 = r.randrange(len(nus))
    default = r.random() < 0.4
    cf = config(r, N, "default")
    if not default:
        cf["reg"] = r.choice([1, 2])
        cf["lam0"] = r.choice([0.0, 0.0, 1e-6, 1e-4, 1e-2, 1.0])
        cf["dlam0"] = r.choice([1.0, 1.0, 0.5, 2.0])
        cf["fac"] = r.choice([1.6, 2.0, 5.0])
        if r.random() < 0.3:
            cf["alphas"] = r.choice([[1.0], [1.0, 0.5], [1.0, 0.5, 0.25, 0.125]])
    s = r.choice([0.5, 2.0, 20.0])
    x0 = [rnd(r, s) for _ in range(nx)]
    u0 = [[rnd(r, s) for _ in range(nus[(m0 + i) % len(nus)])] for i in range(N)]
    return make_case(P, shape, N, t0, m0, t0 - m0 * P["dt"], cf, x0, u0, 40, "lq", default, reuse(r))
