"""Histories of operations on a C/GMRES solver."""
from vlib import *
from gen_ddp import mono, rnd, spd_quad

UNIT = ("cgmres.cpp", ())


def problem(r, kind, big=False):
    nx, nu = r.choice([1, 2, 2, 3, 2, 3, 5]), r.choice([1, 1, 2, 3])
    n = 1 + nx + nu
    f = []
    for j in range(nx):
        p = [mono(n, rnd(r, 1.0), 1 + k) for k in range(nx)]
        p += [mono(n, rnd(r, 1.0), 1 + nx + k) for k in range(nu)]
        p += [mono(n, rnd(r, 0.5)), mono(n, rnd(r, 0.5), 0)]
        if kind == "affine":
            p.append(mono(n, rnd(r, 0.5), 0, 1 + r.randrange(nx + nu)))
        else:
            p.append(mono(n, rnd(r, 0.5), 0, 1 + r.randrange(nx + nu)))
            for _ in range(r.randrange(1, 4)):
                p.append(mono(n, rnd(r, 0.3), *[1 + r.randrange(nx + nu) for _ in range(r.choice([2, 2, 3]))]))
        f.append(p)
    if kind == "nonlin":       # keep the Hamiltonian convex in u at the initial state: no u-quadratic terms in f
        f = [[m for m in p if sum(m[1][1 + nx:]) <= 1] for p in f]
    l = spd_quad(r, n, 1, nx + nu, 0.3, 0.6)
    for k in range(nx + nu):
        w = 10 ** r.uniform(3, 4.5) if big and k >= nx else 1.0          # large inputs pay off
        l += [mono(n, rnd(r, 1.0) * w, 1 + k), mono(n, rnd(r, 0.5), 0, 1 + k)]
    if kind != "affine":
        for k in range(nu):
            l.append(mono(n, abs(rnd(r, 0.1)), *[1 + nx + k] * 4))
        l.append(mono(n, abs(rnd(r, 0.1)), *[1 + r.randrange(nx)] * 4))
    m = 1 + nx
    phi = spd_quad(r, m, 1, nx, 0.2, 0.8)
    for k in range(nx):
        phi += [mono(m, rnd(r, 1.0), 1 + k), mono(m, rnd(r, 0.5), 0, 1 + k)]
    if kind != "affine":
        phi.append(mono(m, abs(rnd(r, 0.1)), *[1 + r.randrange(nx)] * 4))
    return {"nx": nx, "nu": nu, "ode": r.choice([0, 1]), "sim": r.choice([-1, 0, 1]), "f": f, "l": l, "phi": phi,
            "x0": [rnd(r, 1.5) for _ in range(nx)], "u0": [rnd(r, 1.0) for _ in range(nu)], "kind": kind}


def config(r, P):
    N = r.choice([1, 2, 3, 4, 6, 1, 2, 3, 4, 6, 12])
    dt = r.choice([0.01, 0.02, 0.005, 0.05, 1 / 64])
    n = N * P["nu"]
    k = r.choice([n, n + 3, 5, 1, 2, 3])
    periods = r.choice([r.randrange(1, 12)] * 9 + [60])
    tie = r.random() < 0.3                # the last period begins exactly at the end of the duration
    if tie:
        dt = r.choice([1 / 64, 1 / 128, 1 / 32])
    return {"sim": (periods - (1 if tie else 0.5)) * dt, "T": r.choice([1.0, 0.5, 0.3, 1.5]), "N": N, "ratio": r.choice([0.5, 1.0, 0.1, 3.0]),
            "dt": dt, "zeta": r.choice([1.0, 10.0, 0.5 / dt, 1.0 / dt]), "kmax": k,
            "delta": r.choice([0.002, 0.01, 1e-3, 1e-4, dt]), "dump": r.choice([1, 1, 2, 3, 5]), "periods": periods}


def case(r, mode):
    big = mode == "ctl" and r.random() < 0.15
    P = problem(r, "affine" if big else r.choice(["affine", "affine", "nonlin"]), big)
    toks, ops = [], []
    nx, nu = P["nx"], P["nu"]
    st = {}

    def cfg(c):
        st["c"] = c
        toks.append("cfg %s %s %d %s %s %s %d %s %d" % (hexd(c["sim"]), hexd(c["T"]), c["N"], hexd(c["ratio"]), hexd(c["dt"]),
                                                        hexd(c["zeta"]), c["kmax"], hexd(c["delta"]), c["dump"]))
        ops.append({"op": "cfg", "cf": {"sim": jd(c["sim"]), "T": jd(c["T"]), "N": c["N"], "ratio": jd(c["ratio"]),
                                        "dt": jd(c["dt"]), "zeta": jd(c["zeta"]), "kmax": c["kmax"], "delta": jd(c["delta"]),
                                        "dump": c["dump"]}})

    def setup():
        toks.append("setup")
        ops.append({"op": "setup"})
        st["N"] = st["c"]["N"]

    def init(x, u):
        toks.append("init %s %s" % (tv(x), tv(u)))
        ops.append({"op": "init", "x": jv(x), "u": jv(u)})

    def dhdu():
        t = r.choice([0.0, r.uniform(0, 5), r.uniform(0, 0.5), 20.0, r.uniform(-1, 0)])
        x = [rnd(r, 1.5) for _ in range(nx)]
        ul = [[rnd(r, 1.5) for _ in range(nu)] for _ in range(st["N"])]
        toks.append("dhdu %s %s %s" % (hexd(t), tv(x), tvs(ul)))
        ops.append({"op": "dhdu", "t": jd(t), "x": jv(x), "ul": jvs(ul)})

    def ctl():
        t = r.choice([0.0, r.uniform(0, 5), r.uniform(0, 0.5)])
        x = [rnd(r, 1.0) for _ in range(nx)]
        y = [a + rnd(r, 1.0) * st["c"]["dt"] * 2 for a in x]
        toks.append("ctl %s %s %s" % (hexd(t), tv(x), tv(y)))
        ops.append({"op": "ctl", "t": jd(t), "x": jv(x), "y": jv(y)})

    def step(t):
        toks.append("step %s" % hexd(t))
        ops.append({"op": "step", "t": jd(t)})

    def steps(n, t=0.0):
        for _ in range(n):
            step(t)
            t += st["c"]["dt"]

    def run(base):
        toks.append("run")
        ops.append({"op": "run", "base": base})
        st["N"] = st["c"]["N"]

    def other():
        if r.random() < 0.2:
            n = r.choice([1, 2, 3, 5, 8])
            toks.append("other %d" % n)
            ops.append({"op": "other"})

    def recfg(c):       # other parameters without a new setup
        c2 = config(r, P)
        c2["N"] = c["N"]
        return c2

    cfg(config(r, P))
    if r.random() < 0.3:
        init([rnd(r, 1.5) for _ in range(nx)], [rnd(r, 1.0) for _ in range(nu)])
    if mode == "run":
        first = r.random() < 0.5
        if first:      # something else on the same solver before
            setup()
            steps(r.randrange(0, 3))
            if r.random() < 0.5:
                init([rnd(r, 1.5) for _ in range(nx)], [rnd(r, 1.0) for _ in range(nu)])
            cfg(config(r, P))
        base = len(ops) + 1
        setup()
        steps(st["c"]["periods"])
        other()
        if r.random() < 0.5:
            ctl()
        run(base)
        if r.random() < 0.6:
            if r.random() < 0.5:
                old = st["c"]
                cfg(config(r, P))
                if r.random() < 0.5:
                    setup()
                    steps(1)
                cfg(old)
            run(base)
    else:
        setup()
        for _ in range(r.randrange(2, 7)):
            other()
            k = r.random()
            if mode == "dhdu":
                k = k * 0.5
            if mode == "ctl":
                k = 0.35 + 0.65 * k
            if k < 0.4:
                dhdu()
            elif k < 0.7:
                ctl()
            elif k < 0.85:
                step(r.choice([0.0, r.uniform(0, 3)]))
            elif k < 0.93:
                cfg(recfg(st["c"]))
            else:
                cfg(config(r, P))
                setup()
    line = " ".join(["cgmres %d %d %d %d" % (nx, nu, P["ode"], P["sim"]), tv(P["x0"]), tv(P["u0"]), tps(P["f"]), tp(P["l"]),
                     tp(P["phi"]), str(len(toks))] + toks)
    js = {"P": {"nx": nx, "nu": nu, "ode": P["ode"], "sim": P["sim"] if P["sim"] >= 0 else P["ode"], "f": jps(P["f"]),
                "l": jp(P["l"]), "phi": jp(P["phi"]), "x0": jv(P["x0"]), "u0": jv(P["u0"]), "affine": P["kind"] == "affine",
                "convex": True}, "ops": ops, "tag": mode + " " + P["kind"], "crash": "", "runs": []}
    return {"line": line, "js": js, "unit": UNIT}
