"""Sessions: call histories enumerated by TLC (Sessions.tla), replayed with random problems and alphabets of calls."""
import functools
from vlib import *
import gen_ddp as G
import gen_fmpc as F
import gen_small as S
from tlagen import enumerate_cases

NAN, INF = float("nan"), float("inf")


@functools.lru_cache(None)
def histories(last, solvers=2, length=3, throws=True, nest=True):
    """all histories of calls: lists of (object, kind, nested)"""
    r = enumerate_cases("Sessions", {"Last": '"%s"' % last, "Solvers": str(solvers), "MaxLen": str(length), "Carry": "TRUE",
                                     "Throws": str(throws).upper(), "Nest": str(nest).upper()},
                        inv=("OwnReads", "Separate", "Exclusive"), props=("Ends",))
    return sorted(set(tuple(tuple(c) for c in h["calls"]) for h in r["cases"])), r["distinct"]


def replayed(r, hs, n, kinds, throwing):
    """calls of n of the histories: (object, kind, fresh, inner calls, callback, throw)"""
    calls = [(100 + i, i + 1, 0, 0, 1 + r.choice([0, 3, 17]), int(i + 1 == throwing)) for i in range(kinds)]
    for m, h in enumerate(r.sample(hs, min(n, len(hs)))):
        for p, (s, k, nested) in enumerate(h):
            inner = 0
            while not nested and p + 1 + inner < len(h) and h[p + 1 + inner][2]:
                inner += 1
            at = r.choice([1, 2, 3, 5, 8, r.randrange(1, 40), r.randrange(1, 150)])
            calls.append((1000 + 10 * m + s, k, 0, inner, at, int(k == throwing)))
    return calls


def kind(exp=("",), det=True, cls=0, pr=0, **kw):
    return dict(kw, exp=list(exp), det=det, cls=cls, print=pr)


def j_kind(k):
    return {f: k[f] for f in ("exp", "det", "cls", "print")}


# ------------------------------------------------------------------ DDP
def ddp_call(r, P, nus, tb, N=None, lim=None):
    N = r.choice([0, 1, 2, 3, 4, 5]) if N is None else N
    j = r.randrange(len(nus) * 2)
    cf = G.config(r, N, r.choice(["rand", "rand", "default"]))
    cf["lim"] = r.choice([0, 0, 1]) if lim is None else lim
    cf["maxIter"] = r.choice([0, 1, 2, 4, 8])
    return dict(cf=cf, t0=tb + j * P["dt"], x0=[G.rnd(r, 2.0) for _ in range(P["nx"])],
                u0=[[G.rnd(r, 1.5) for _ in range(nus[(j + i) % len(nus)])] for i in range(N)])


def ddp_malformed(r, P, nus, tb, dyn):
    while True:
        c = ddp_call(r, P, nus, tb)
        N = c["cf"]["N"]
        what = r.choice(["long", "short", "dim", "dim", "shift", "both"])
        if what == "long":
            k = r.choice([1, 1, 2, 7])
            c["u0"] += [list(c["u0"][-1]) if c["u0"] else [0.0] * nus[0]] * k
            return c, ["invalid_argument"] if not dyn else ["invalid_argument", "runtime_error"]
        if what == "short" and N > 0:
            del c["u0"][r.choice([0, N - 1])]
            return c, ["invalid_argument"] if not dyn else ["invalid_argument", "runtime_error"]
        if not dyn or N == 0:
            continue
        if what in ("dim", "both"):
            i = r.choice([0, N - 1, r.randrange(N)])
            n = len(c["u0"][i])
            c["u0"][i] = [0.5] * r.choice([m for m in range(0, 5) if m != n])
            if what == "both":
                c["u0"].append([1.0])
                return c, ["invalid_argument", "runtime_error"]
            return c, ["runtime_error"]
        if what == "shift":
            j = r.randrange(1, 4)
            d = [len(u) for u in c["u0"]]
            c["t0"] += j * P["dt"]
            k = round((c["t0"] - tb) / P["dt"])
            if any(nus[(k + i) % len(nus)] != d[i] for i in range(N)):
                return c, ["runtime_error"]


def ddp_fail(r, P, nus, tb):
    c = ddp_call(r, P, nus, tb, N=r.choice([1, 2, 3, 4]))
    c["cf"]["maxIter"] = r.choice([1, 3, 8])
    k = r.randrange(4)
    if k == 0:
        c["x0"][r.randrange(len(c["x0"]))] = r.choice([NAN, INF, 1e200])
    elif k == 1:
        c["cf"].update(lmax=r.choice([0.0, 1e-9]), lam0=1.0, rthre=1e9)
    elif k == 2:
        c["cf"].update(lmax=10.0, rthre=1e9)
    else:
        u = r.choice(c["u0"])
        if u:
            u[0] = NAN
    return c


def ddp_session(r, shape, n, flags, length=3):
    nx, nut = shape
    nus = G.nus_for(r, nut)
    pk = r.choice(["mild", "wild", "wild"])
    P = G.problem(r, nx, nus, pk, lim=1)
    tb = r.choice([0.0, 0.0, -1.0])
    A = ddp_call(r, P, nus, tb)
    B = ddp_call(r, P, nus, tb)
    mal, exp = ddp_malformed(r, P, nus, tb, nut < 0)
    fl = ddp_fail(r, P, nus, tb)
    ks = [kind(cls=1, call=A), kind(cls=1, pr=r.choice([1, 2, 3, 3]), call=A), kind(cls=2, call=B), kind(exp, cls=3, call=mal),
          kind(cls=4, call=fl)]
    last = r.choice(["ok", "ok", "idle", "unsupported", "malformed"])
    c = ddp_call(r, P, nus, tb)
    if last == "ok":
        ks.append(kind(cls=4, pr=r.choice([1, 2, 3, 3]), call=fl))
    elif last == "idle":
        c["cf"]["maxIter"] = 0
        ks.append(kind(cls=5, call=c))
    elif last == "malformed":
        mal, exp = ddp_malformed(r, P, nus, tb, nut < 0)
        ks.append(kind(exp, cls=5, pr=r.choice([0, 2]), call=mal))
    else:
        c["cf"]["second"] = 1
        some = c["cf"]["N"] >= 1 and c["cf"]["maxIter"] >= 1
        ks.append(kind(["runtime_error"] if some else ["", "runtime_error"], det=False, cls=5, call=c))
    nested = not flags & 1                        # virtual time is for one call at a time
    if nested:
        c = ddp_call(r, P, nus, tb, N=r.choice([1, 2, 3, 5]))
        ks.append(kind(["exception", ""], det=False, cls=6, call=c))
    hs, _ = histories(last, 2, length, nested, nested)
    calls = replayed(r, hs, n, len(ks), 7 if nested else 0)
    line = [G.handler(*shape), G.t_prob(P, tb), "S", str(len(calls))]
    for q, (s, k, fr, inner, at, thr) in enumerate(calls):
        c = ks[k - 1]["call"]
        poison = 0 if q < len(ks) else r.choice([-1, 0, 255, 63, 127, 1])
        line += [str(s), str(fr), str(poison), str(flags), str(inner), str(at), str(thr), G.t_cfg(dict(c["cf"], print=ks[k - 1]["print"])), hexd(c["t0"]), tv(c["x0"]),
                 tvs(c["u0"])]
    js = {"solver": "ddp", "kinds": [j_kind(k) for k in ks], "calls": [list(c[:3]) for c in calls], "tag": "%s %s" % (pk, last),
          "crash": "", "runs": []}
    return {"line": " ".join(line), "js": js, "unit": G.unit(*shape)}


# ------------------------------------------------------------------ FMPC
def fm_call(r, P, nus, ngs, tb, N=None, det=True, init=None):
    N = r.choice([0, 1, 2, 3, 4]) if N is None else N
    j = r.randrange(len(nus) * 2)
    t0 = tb + j * P["dt"]
    cf = F.config(r)
    if init is not None:
        cf["init"] = init
    if det and not cf["init"]:
        cf["upd"] = 1
    if not det:
        cf["upd"] = cf["init"] = 0
    x0 = [F.rnd(r, 1.5) for _ in range(P["nx"])]
    v = F.variable(r, P, nus, ngs, j % len(nus), N, t0, x0, r.choice(["rand", "roll", "feas"]))
    return dict(cf=cf, N=N, mi=r.choice([0, 1, 2, 4, 8]), t0=t0, x0=x0, v=v, hs=r.choice([N, N, -1, N + 1]), j=j)


def fm_malformed(r, P, nus, ngs, tb, shape):
    while True:
        c = fm_call(r, P, nus, ngs, tb)
        v, N = c["v"], c["N"]
        init = c["cf"]["init"]
        what = r.choice(["len", "len", "cfg", "udim", "sdim", "neg", "neg", "shift"])
        if what == "len":
            k = r.choice(["x", "u", "lam", "s", "nu"])
            dyn = shape[1] < 0 or shape[2] < 0 or not init
            if r.random() < 0.5 and v[k]:
                del v[k][r.choice([0, -1])]
            else:
                v[k].append(list(v[k][-1]) if v[k] else [0.5])
            # a shifted list may have wrong elements as well
            return c, ["invalid_argument", "runtime_error"] if dyn and k in ("u", "s", "nu") else ["invalid_argument"]
        if what == "cfg":
            c["N"] = r.choice([n for n in range(6) if n != N])
            return c, ["invalid_argument", "runtime_error"]
        if N == 0:
            continue
        i = r.choice([0, N - 1, r.randrange(N)])
        if what == "udim" and shape[1] < 0:
            n = len(v["u"][i])
            v["u"][i] = [0.5] * r.choice([m for m in range(4) if m != n])
            return c, ["runtime_error"]
        if what == "sdim" and shape[2] < 0 and not init:
            k = r.choice(["s", "nu"])
            n = len(v[k][i])
            v[k][i] = [0.5] * r.choice([m for m in range(4) if m != n])
            return c, ["runtime_error"]
        if what == "neg" and not init:
            k = r.choice(["s", "nu"])
            if v[k][i]:
                v[k][i][r.randrange(len(v[k][i]))] = r.choice([-1.0, -1e-3, -1e-12, -1e-300, -5e-324, -INF])
                return c, ["runtime_error"]
        if what == "shift" and shape[1] < 0:
            d = [len(u) for u in v["u"]]
            j = c["j"] + r.randrange(1, 3)
            if any(nus[(j + q) % len(nus)] != d[q] for q in range(N)):
                c["t0"] = tb + j * P["dt"]
                return c, ["runtime_error"]


def fm_fail(r, P, nus, ngs, tb):
    c = fm_call(r, P, nus, ngs, tb, N=r.choice([1, 2, 3]))
    c["mi"] = r.choice([1, 3, 6])
    k = r.choice(["x0", "x0", "x", "u", "lam", "s", "budget", "thre"])
    v = c["v"]
    if k == "x0":
        c["x0"][0] = r.choice([NAN, INF, 1e200])
    elif k == "budget":
        c["cf"]["thre"] = 0.0
    elif k == "thre":
        c["cf"]["thre"] = 1e9
    else:
        es = [e for e in v[k] if e]
        if es:
            e = r.choice(es)
            e[r.randrange(len(e))] = r.choice([NAN, INF]) if k == "s" else r.choice([NAN, INF, -INF, 1e200])
    return c


def fm_session(r, shape, n, flags, length=3):
    P, nus, ngs = F.fproblem(r, shape, r.choice(["lq", "mild", "wild"]))
    tb = r.choice([0.0, 0.0, -1.0])
    A = fm_call(r, P, nus, ngs, tb)
    if A["cf"]["init"] and r.random() < 0.5:      # supplied slacks of any kind
        for k in ("s", "nu"):
            A["v"][k] = [[F.rnd(r, 1.0) for _ in e] for e in A["v"][k]]
    B = fm_call(r, P, nus, ngs, tb)
    mal, exp = fm_malformed(r, P, nus, ngs, tb, shape)
    fl = fm_fail(r, P, nus, ngs, tb)
    ks = [kind(cls=1, call=A), kind(cls=1, pr=r.choice([1, 2, 3, 3]), call=A), kind(cls=2, call=B), kind(exp, cls=3, call=mal),
          kind(cls=4, call=fl)]
    last = r.choice(["ok", "ok", "idle", "carried", "carried", "malformed"])
    c = fm_call(r, P, nus, ngs, tb, det=last != "carried")
    if last == "ok":
        ks.append(kind(cls=4, pr=r.choice([1, 2, 3, 3]), call=fl))
    elif last == "idle":
        c["mi"] = 0
        ks.append(kind(cls=5, call=c))
    elif last == "malformed":
        mal, exp = fm_malformed(r, P, nus, ngs, tb, shape)
        ks.append(kind(exp, cls=5, pr=r.choice([0, 2]), call=mal))
    else:
        ks.append(kind(det=False, cls=5, call=c))
    nested = not flags & 1                        # virtual time is for one call at a time
    if nested:
        c = fm_call(r, P, nus, ngs, tb, N=r.choice([1, 2, 3]))
        ks.append(kind(["exception", ""], det=False, cls=6, call=c))
    hs, _ = histories(last, 2, length, nested, nested)
    calls = replayed(r, hs, n, len(ks), 7 if nested else 0)
    line = [F.handler(*shape), F.t_prob(P, tb), "S", str(len(calls))]
    for q, (s, k, fr, inner, at, thr) in enumerate(calls):
        c = ks[k - 1]["call"]
        poison = 0 if q < len(ks) else r.choice([-1, 0, 255, 63, 127, 1])
        line += [str(s), str(fr), str(poison), str(flags), str(inner), str(at), str(thr), F.t_cfg(c["N"], c["mi"], ks[k - 1]["print"], c["cf"]), hexd(c["t0"]),
                 tv(c["x0"]), F.t_var(c["v"], c["hs"])]
    js = {"solver": "fmpc", "kinds": [j_kind(k) for k in ks], "calls": [list(c[:3]) for c in calls], "tag": "session " + last,
          "crash": "", "runs": []}
    return {"line": " ".join(line), "js": js, "unit": F.unit(*shape)}


# ------------------------------------------------------------------ box QP (print levels only)
def box_session(r, n, length=3):
    dim = r.choice([1, 2, 3])
    qs = []
    while len(qs) < 3:
        c = S.box_random(r, dim)
        qs.append(c)
    ks, data = [], []
    for i, q in enumerate(qs):
        for pr in (0, r.choice([1, 2, 3, 4])):
            ks.append(kind(cls=i, pr=pr))
            data.append(q)
    hs, _ = histories("ok", 1, length, False, False)
    order = [(1, i + 1, 1) for i in range(len(ks))]
    for h in r.sample(hs, min(n, len(hs))):
        order += [(1, k, int(p == 0)) for p, (s, k, _) in enumerate(h)]
    solves = []
    for s, k, fr in order:
        q = data[k - 1]
        solves.append((fr, ks[k - 1]["print"]) + q[2:])
    case = S.box_case(r.choice([dim, -1]), solves, "box session")
    case["js"] = {"solver": "box", "kinds": [j_kind(k) for k in ks], "calls": [list(c) for c in order], "tag": "box session",
                  "crash": "", "runs": []}
    return case


# ------------------------------------------------------------------ threads
@functools.lru_cache(None)
def schedules(n, turns):
    """all orders of turns of n threads (Threads.tla); the model with the finest grain is checked as well"""
    ok = '{"ok"}'
    enumerate_cases("Threads", {"N": "2", "Classes": '{"ok", "idle", "fail", "malformed"}', "Grain": '"op"', "MaxTurns": "0"},
                    inv=("OwnReads", "Separate"), props=("AllEnd",))
    r = enumerate_cases("Threads", {"N": str(n), "Classes": ok, "Grain": '"callback"', "MaxTurns": str(turns)},
                        inv=("OwnReads", "Separate"), props=("AllEnd",))
    return sorted(set(tuple(c["sched"]) for c in r["cases"]))


def threads_case(r, solver, shape, free):
    """calls of different kinds at the same time on objects of their own: every result as without the others"""
    n = r.choice([2, 3])
    sched = r.choice(schedules(n, 5 if n == 2 else 4))
    rounds, quantum = (60, 0) if free else (2, r.choice([1, 1, 2, 3, 7]))
    tb = r.choice([0.0, -1.0])
    if solver == "ddp":
        nus = G.nus_for(r, shape[1])
        P = G.problem(r, shape[0], nus, r.choice(["mild", "wild"]), lim=1)
        calls = [ddp_call(r, P, nus, tb) if free or i < n - 1 else ddp_fail(r, P, nus, tb) for i in range(n)]
        if free:
            for c in calls:
                c["cf"]["maxIter"] = 8
        line = [G.handler(*shape), G.t_prob(P, tb)]
        args = [[G.t_cfg(dict(c["cf"], print=0)), hexd(c["t0"]), tv(c["x0"]), tvs(c["u0"])] for c in calls]
        unit = G.unit(*shape)
    else:
        P, nus, ngs = F.fproblem(r, shape, r.choice(["lq", "mild", "wild"]))
        calls = [fm_call(r, P, nus, ngs, tb) if free or i < n - 1 else fm_fail(r, P, nus, ngs, tb) for i in range(n)]
        if free:
            for c in calls:
                c["mi"] = 8
        line = [F.handler(*shape), F.t_prob(P, tb)]
        args = [[F.t_cfg(c["N"], c["mi"], 0, c["cf"]), hexd(c["t0"]), tv(c["x0"]), F.t_var(c["v"], c["hs"])] for c in calls]
        unit = F.unit(*shape)
    line += ["T", str(n), str(rounds), str(quantum), str(len(sched))] + [str(i - 1) for i in sched]
    for a in args:
        line += a
    ks = [kind(cls=i + 1) for i in range(n)]
    order = [(10 + i, i + 1, 1) for i in range(n)] + [(i + 1, i + 1, 0) for _ in range(rounds) for i in range(n)]
    js = {"solver": solver, "kinds": [j_kind(k) for k in ks], "calls": [list(c) for c in order], "tag": "threads free" if free else "threads",
          "crash": "", "runs": []}
    return {"line": " ".join(line), "js": js, "unit": unit}
