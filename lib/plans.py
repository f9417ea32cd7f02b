"""What each property check runs."""
from runner import Job, Model
import gen_ddp as G
import gen_small as S
import gen_cgmres as CG
import gen_fmpc as F
import gen_sessions as SE
import gen_ctl as CT
import gen_containers as GC

PLANS = {}


def plan(*pids):
    def deco(f):
        for p in pids:
            PLANS[p] = f if len(pids) == 1 else (lambda r, tier, k, p=p: f(p, r, tier, k))
        return f
    return deco


def shapes(tier):
    return G.SHAPES_T if tier == "thorough" else G.SHAPES_Q


def mixed(r, n, sh, nan=True):
    out = []
    for _ in range(n):
        kind = r.choice(["lq", "mild", "mild", "wild", "wild"])
        lim = r.choice([0, 0, 1])
        if kind == "wild":
            lim = r.choice([0, 0, 0, 1])
        out.append(G.prefix_case(r, r.choice(sh), kind, r.choice(["rand", "rand", "default"]), lim,
                                 N=r.choice([0, 1, 2, 3, 4, 5, 6, 8])))
    for _ in range(max(4, n // 40)):
        out.append(G.long_case(r, r.choice(sh), r.choice([0, 0, 1])))
        out.append(G.far_case(r, r.choice(sh), r.choice([0, 0, 1])))
        out.append(G.many_case(r, r.choice(sh), r.choice([0, 0, 1])))
        for tag in ("origin", "tiny", "big", "sparse"):
            out.append(G.special_case(r, r.choice(sh), tag, r.choice([0, 0, 1])))
    if nan:
        for _ in range(max(10, n // 15)):
            out.append(G.nan_case(r, r.choice(sh)))
    return out


@plan("C01", "C02", "C03", "C04", "C05")
def ddp_iter(pid, r, tier, k):
    n = 700 if tier == "quick" else 2500
    cs = mixed(r, n, shapes(tier), nan=True)
    jobs = [Job("TraceDDP", cs)]
    if pid != "C01":       # control paths enumerated by TLC
        jobs.append(Job("TraceDDP", CT.cases(r, 3000, 4) if tier == "thorough" else CT.cases(r, 450, 3), name="paths"))
        jobs.append(Job("TraceDDP", CT.ties(r, 4000 if tier == "thorough" else 500), name="ties"))
    return jobs


@plan("C06")
def ddp_lq(r, tier, k):
    sh = shapes(tier)
    n = 350 if tier == "quick" else 1200
    cs = [G.lq_case(r, r.choice(sh)) for _ in range(n)]
    cs += [G.prefix_case(r, r.choice(sh), "mild", "default", 0, K=12, N=r.choice([1, 2, 3, 4])) for _ in range(n // 2)]
    return [Job("TraceDDP", cs)]


@plan("C07")
def ddp_lim(r, tier, k):
    sh = shapes(tier)
    n = 500 if tier == "quick" else 1500
    cs = [G.prefix_case(r, r.choice(sh), r.choice(["lq", "mild", "mild", "wild"]), r.choice(["rand", "default"]), 1,
                        K=r.choice([3, 6, 12])) for _ in range(n)]
    cs += [G.prefix_case(r, r.choice(sh), r.choice(["lq", "mild"]), "default", 0, tag="limoff") for _ in range(n // 5)]
    for _ in range(n // 25):
        cs += [G.long_case(r, r.choice(sh), 1), G.far_case(r, r.choice(sh), 1), G.many_case(r, r.choice(sh), 1)]
        cs += [G.special_case(r, r.choice(sh), tag, 1) for tag in ("origin", "tiny", "big", "sparse")]
    return [Job("TraceDDP", cs)]


def some(r, cases, n):
    return cases if n is None or n >= len(cases) else r.sample(cases, n)


@plan("C10")
def boxqp(r, tier, k):
    t = tier == "thorough"
    cs = [S.box_random(r) for _ in range(6000 if t else 1200)]
    if k == 0:
        cs += S.box_grid(r, S.grid("box1"), "grid1")
        cs += S.box_grid(r, some(r, S.grid("box2"), None if t else 8000), "grid2")
        cs += S.box_grid(r, some(r, S.grid("box3"), None if t else 3000), "grid3")
    return [Job("TraceBoxQP", cs)]


@plan("C18")
def gmres(r, tier, k):
    t = tier == "thorough"
    cs = [S.gm_random(r) for _ in range(6000 if t else 1200)]
    if k == 0:
        cs += S.gm_grid(r, S.grid("gm1"), "grid1")
        cs += S.gm_grid(r, some(r, S.grid("gm2"), None if t else 5000), "grid2")
        cs += S.gm_grid(r, S.grid("gm3"), "grid3")
    return [Job("TraceGmres", cs)]


@plan("C19")
def ode(r, tier, k):
    return [Job("TraceOde", [S.ode_case(r) for _ in range(6000 if tier == "thorough" else 2500)])]


@plan("C23")
def l1(r, tier, k):
    cs = [S.l1_random(r) for _ in range(4000 if tier == "thorough" else 1500)]
    if k == 0:
        cs += S.l1_grid(r)
    return [Job("TraceOde", cs)]


@plan("C20")
def cg_res(r, tier, k):
    return [Job("TraceCgmres", [CG.case(r, "dhdu") for _ in range(4000 if tier == "thorough" else 1500)])]


@plan("C21")
def cg_ctl(r, tier, k):
    return [Job("TraceCgmres", [CG.case(r, "ctl") for _ in range(3000 if tier == "thorough" else 1200)])]


@plan("C22")
def cg_run(r, tier, k):
    return [Job("TraceCgmres", [CG.case(r, "run") for _ in range(3000 if tier == "thorough" else 1000)])]


def fmixed(r, n, sh, ls=None):
    out = [F.prefix_case(r, r.choice(sh), r.choice(["lq", "mild", "mild", "wild"]), ls) for _ in range(n)]
    for _ in range(n // 40):
        out += [F.prefix_case(r, r.choice(sh), r.choice(["lq", "mild"]), ls, special) for special in ("long", "far", "many", "origin", "tiny", "big", "sparse")]
    return out + [F.nan_case(r, r.choice(sh)) for _ in range(n // 5)]


@plan("C11", "C12", "C13", "C14", "C17", "C26")
def fmpc_iter(pid, r, tier, k):
    t = tier == "thorough"
    sh = F.SHAPES_T if t else F.SHAPES_Q
    cs = fmixed(r, 1500 if t else 500, sh, 1 if pid == "C17" else None)
    if pid == "C17":
        cs += [F.prefix_case(r, r.choice(sh), r.choice(["mild", "mild", "wild"]), 1, "cliff") for _ in range(200 if t else 100)]
    if pid == "C12":
        cs += [F.prefix_case(r, r.choice(sh), "lq", None, special) for special in ("pico", "distant") for _ in range(120 if t else 60)]
    if pid in ("C13", "C14"):
        cs += [F.prefix_case(r, (2, 2, -1), r.choice(["lq", "mild"]), 0, "saddle") for _ in range(120 if t else 60)]
    if pid == "C14":
        cs += [F.nan_case(r, r.choice(sh), k) for k in ("nuhuge", "x0", "s0", "tiny") for _ in range(60 if k == "nuhuge" else 20)]
    if pid == "C26":
        for c in cs:
            c["line"] = F.with_coefficients(c["line"])
    return [Job("TraceFmpc", cs)]


def sess(r, tier, which, flags, n=None, h=None):
    t = tier == "thorough"
    out = []
    for w in which:
        for _ in range(n or (150 if t else 80)):
            hh = h or (60 if t else 30)
            if w == "ddp":
                out.append(SE.ddp_session(r, r.choice(shapes(tier)), hh, flags, 4 if t and r.random() < 0.3 else 3))
            elif w == "fmpc":
                out.append(SE.fm_session(r, r.choice(F.SHAPES_T if t else F.SHAPES_Q), hh, flags, 4 if t and r.random() < 0.3 else 3))
            else:
                out.append(SE.box_session(r, 12))
    return Job("TraceSession", out)


def at_once(r, tier, solver):
    """calls at the same time on different objects: with turns in an order enumerated by TLC, and running freely"""
    sh = shapes(tier) if solver == "ddp" else F.SHAPES_Q
    n = 300 if tier == "quick" else 2000
    return Job("TraceSession", [SE.threads_case(r, solver, r.choice(sh), k % 8 == 0) for k in range(n)], name="threads")


@plan("C08")
def ddp_reject(r, tier, k):
    return [sess(r, tier, ["ddp"], 2, n=150), Job("TraceDDP", mixed(r, 150, shapes(tier)))]


@plan("C09")
def ddp_function(r, tier, k):
    return [sess(r, tier, ["ddp"], 2, n=150), at_once(r, tier, "ddp")]


@plan("C15")
def fmpc_reject(r, tier, k):
    return [sess(r, tier, ["fmpc"], 2, n=150), Job("TraceFmpc", fmixed(r, 200, F.SHAPES_Q))]


@plan("C16")
def fmpc_function(r, tier, k):
    return [sess(r, tier, ["fmpc"], 2, n=150), at_once(r, tier, "fmpc")]


@plan("C24")
def reports(r, tier, k):
    return [sess(r, tier, ["ddp", "fmpc"], 7, h=15)]


@plan("C25")
def silence(r, tier, k):
    return [sess(r, tier, ["ddp", "fmpc", "box"], 2, h=20)]


@plan("C27")
def containers(r, tier, k):
    return [Job("TraceContainers", GC.containers(r, tier == "thorough"))]


@plan("C28")
def dims(r, tier, k):
    return [Job("TraceContainers", GC.dims())]
