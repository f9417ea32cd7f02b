"""DDP cases that take a control path enumerated by TLC from MC_DDPCtl: the running cost is scripted point by point."""
import functools
from vlib import *
import gen_ddp as G
from tlagen import enumerate_cases

NONE, INF = -1000, 1000
VARIANTS = {1: dict(lmin=-3, lmax=4, lthre=1), 2: dict(lmin=-1, lmax=2, lthre=-1), 3: dict(lmin=0, lmax=7, lthre=5)}


@functools.lru_cache(None)
def paths(variant, depth):
    r = enumerate_cases("MC_DDPCtl", {"Variant": str(variant), "MaxIter": str(depth)},
                        inv=("Bounded", "FailsAbove", "Risen", "Directed", "Truthful", "Enough"), props=("Monotone", "Terminates"))
    return sorted(set(json.dumps(c["path"]) for c in r["cases"])), r["distinct"]


def case(r, variant, path, shape):
    """the problem realising the path, or None when two points of the script come too close to each other"""
    V = VARIANTS[variant]
    fac = r.choice([2.0, 2.0, 4.0])
    val = lambda e: 0.0 if e == NONE else fac ** e
    kthre, cthre = 0.02, 0.01
    alphas = r.choice([[1.0], [1.0, 0.5], [1.0, 0.5, 0.25, 0.125], [0.5, 0.75], G.DEF_ALPHAS])
    rthre = r.choice([0.0, 0.0, 0.3, -0.2])
    reg = r.choice([1, 2])
    lmin, lmax, lthre = val(V["lmin"]), val(V["lmax"]), val(V["lthre"])
    lam, dlam = val(path[0][1]), val(path[0][2])
    u, J = G.rnd(r, 1.0), 100.0 * r.choice([1, -1])
    u0 = u
    tab, its = [], 0
    steps = [e for e in path[1:]]
    k = 0
    while k < len(steps):
        need, cross = steps[k][1], steps[k][2]
        k += 1
        h = 0.7 if need == NONE else -fac ** (need + 0.5)
        first = True
        while True:
            its += 1
            while not h + lam > 0:                      # gains refused
                dlam = max(dlam * fac, fac)
                lam = max(lam * dlam, lmin)
                if lam > lmax:
                    break
            D = h + lam
            if first:
                un = abs(u) + 1
                if D <= 0 or lam > lmax and need != NONE:
                    g = 1.0                             # the solve has failed here
                elif cross == INF:
                    g = 3 * kthre * un * (h + lmax * fac * 2)
                elif cross == NONE or h + fac ** (cross + 0.5) <= 0:
                    g = 0.2 * kthre * un * D
                else:
                    g = kthre * un * (h + fac ** (cross + 0.5))
                g *= r.choice([1, -1])
                tab.append((u, J, g, h))
                first = False
            if k >= len(steps) or steps[k][0] == "at":
                break                                   # the path ends here (success or failure)
            what = steps[k]
            k += 1
            kk = -g / D
            exp = lambda a: -a * (kk * g + 0.5 * a * kk * kk * h)
            last = len(alphas) - 1
            j = r.randrange(len(alphas)) if what[0] == "acc" else last + 1
            for a in alphas[:j]:
                bad = [J + 1.0, J + 1e-3, J + float("inf"), float("nan")]
                if rthre > 0:
                    bad += [J - 0.5 * rthre * exp(a)] * 3
                if rthre < 0:
                    bad[:2] = [J - 1.5 * rthre * exp(a) + 1e-3, J - 3 * rthre * exp(a) + 1]
                tab.append((u + a * kk, r.choice(bad), 1.0, 1.0))
            if what[0] == "acc":
                e = exp(alphas[j])
                if what[1]:
                    act = 0.3 * cthre
                    if rthre < 0 and r.random() < 0.5:
                        act = 0.5 * rthre * e           # a costlier trajectory is accepted on request
                    if act <= 1.2 * rthre * e:
                        return None
                else:
                    act = max(2 * cthre, 2 * rthre * e)
                    if act >= 50:
                        return None
                u, J = u + alphas[j] * kk, J - act
                dlam = min(dlam / fac, 1 / fac)
                lam = lam * dlam if lam >= lmin else 0.0
                if what[1] or k >= len(steps):
                    tab.append((u, J, 1.0, 1.0))
                break
            dlam = max(dlam * fac, fac)
            lam = max(lam * dlam, lmin)
            if k >= len(steps):
                break
    us = sorted(e[0] for e in tab)
    if any(b - a < 1e-5 for a, b in zip(us, us[1:])) or max(abs(v) for v in us) > 1e3:
        return None
    nx, nut = shape
    N = r.choice([1, 1, 2, 3]) if nut < 0 else 1
    i = r.randrange(N)
    P = {"nx": nx, "dt": 0.25, "modes": [], "phi": [], "nm": N}
    for q in range(N):
        nu = 1 if q == i else 0
        n = 1 + nx + nu
        f = [[G.mono(n, 1.0, 1 + a)] + ([G.mono(n, 1.0, 1 + nx)] if nu and a == 0 else []) for a in range(nx)]
        P["modes"].append({"nu": nu, "ng": 0, "f": f, "l": [], "g": [], "lo": [[(-INF, [0])]] * nu, "hi": [[(INF, [0])]] * nu,
                           "tab": tab if nu else []})
    cf = dict(G.DEF)
    cf.update(N=N, maxIter=0, reg=reg, lim=0, second=0, print=0, alphas=list(alphas), lam0=val(path[0][1]), dlam0=val(path[0][2]), fac=fac,
              lmin=lmin, lmax=lmax, lthre=lthre, kthre=kthre, rthre=rthre, cthre=cthre)
    x0 = [G.rnd(r, 1.0) for _ in range(nx)]
    ends = path[-1][0] == "at" or path[-1] == ["acc", True]
    n = sum(e[0] != "at" for e in path[1:]) + (path[-1][0] == "at")
    c = G.make_case(P, shape, N, 0.0, 0, 0.0, cf, x0, [[u0] if q == i else [] for q in range(N)], n + 1 if ends else n, "path",
                    flags=G.reuse(r, 0.2))
    # what is expected of every iteration; the last one of a path that ends on its own is a success or a failure
    c["js"]["want"] = [e[0] for e in path[1:] if e[0] != "at"] + (["end"] if path[-1][0] == "at" else [])
    return c


def cases(r, n, depth=3):
    """n cases, spread over the variants and over the kinds of paths"""
    out = []
    for v in VARIANTS:
        ps, _ = paths(v, depth if v == 1 else depth + 1)
        kinds = {}
        for p in ps:
            kinds.setdefault(re.sub(r'"at", -?\d+, -?\d+', "at", p[p.index("]") + 1:]), []).append(p)
        order = [r.sample(q, min(len(q), n)) for _, q in sorted(kinds.items())]
        r.shuffle(order)
        k = i = 0
        while k < n // len(VARIANTS) and any(order):
            q = order[i % len(order)]
            i += 1
            if not q:
                continue
            c = case(r, v, json.loads(q.pop()), r.choice([(1, 1), (2, -1)]))
            if c:
                out.append(c)
                k += 1
    return out


def tie(r, shape):
    """one scripted iteration in which quantities are exactly equal to their thresholds (all numbers are short binary fractions)"""
    u0 = r.choice([0.0, 1.0, -1.0, 3.0, -3.0])
    un = abs(u0) + 1
    kthre = r.choice([0.0, 0.25, 0.125, 1.0, 2.0 ** -10])
    lam = r.choice([0.0, 0.0, 1.0, 0.5])
    D = r.choice([1.0, 2.0, 0.5])                    # h + lam
    h = D - lam
    kr = kthre * r.choice([1.0, 1.0, 1.0, 0.5, 2.0]) if kthre > 0 else r.choice([0.0, 0.0, 0.5])
    g = r.choice([1, -1]) * kr * un * D
    lthre = r.choice([lam, 2 * lam + 1, 2 * lam + 1, 0.0])
    kk = -g / D
    alphas = r.choice([[1.0], [1.0, 0.5], [0.5, 0.25]])
    exp = [-a * (kk * g + 0.5 * a * kk * kk * h) for a in alphas]
    rthre = r.choice([0.0, 0.0, 0.5, -0.25, 1.0])
    J = r.choice([8.0, -8.0])
    cthre = r.choice([0.0, 0.0, 0.25, 2.0 ** -9, -0.25])
    tab = [(u0, J, g, h)]
    if kk != 0:
        for a, e in zip(alphas, exp):
            act = r.choice([rthre * e, cthre, 0.0, cthre, e, 2 * cthre, cthre / 2])
            tab.append((u0 + a * kk, J - act, r.choice([0.0, 0.5]), 1.0))
    nx, nut = shape
    n = 1 + nx + 1
    f = [[G.mono(n, 1.0, 1 + a)] + ([G.mono(n, 1.0, 1 + nx)] if a == 0 else []) for a in range(nx)]
    P = {"nx": nx, "dt": 0.25, "phi": [], "nm": 1,
         "modes": [{"nu": 1, "ng": 0, "f": f, "l": [], "g": [], "lo": [[(-INF, [0])]], "hi": [[(INF, [0])]], "tab": tab}]}
    cf = dict(G.DEF)
    cf.update(N=1, maxIter=0, reg=1, lim=0, second=0, print=0, alphas=alphas, lam0=lam, dlam0=r.choice([1.0, 0.5, 2.0]), fac=2.0,
              lmin=r.choice([0.0, 0.25, 1.0]), lmax=r.choice([1.0, 2.0, 64.0]), lthre=lthre, kthre=kthre, rthre=rthre, cthre=cthre)
    return G.make_case(P, shape, 1, 0.0, 0, 0.0, cf, [0.0] * nx, [[u0]], 3, "tie", flags=G.reuse(r, 0.2))


def ties(r, n):
    return [tie(r, r.choice([(1, 1), (2, -1)])) for _ in range(n)]
