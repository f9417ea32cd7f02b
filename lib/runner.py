"""Runs the jobs of a property check: harness -> trace file -> TLC -> verdict and evidence."""
import collections, random
from vlib import *
import tlagen


class Job:
    """Conformance job: cases executed by the harness and judged by a trace specification.
    A case is {"line": harness input, "js": specification data, "unit": harness unit, ["merge"]: fn(js, obs)}."""

    def __init__(self, module, cases, consts=None, name=None):
        self.module, self.cases, self.consts, self.name = module, cases, consts or {}, name or module


class Model:
    """Design job: exhaustive model checking of a specification by itself."""

    def __init__(self, module, cfg=None, consts=None, inv=(), props=(), spec="Spec", deadlock=False, extra=()):
        self.module, self.extra = module, extra
        self.cfg = cfg or cfg_text(consts or {}, spec=spec, inv=inv, props=props, post=None, deadlock=deadlock)


def merge_runs(js, obs):
    js["runs"] = obs


def fill(cases, obs):
    out = []
    for c, o in zip(cases, obs):
        js = dict(c["js"])
        if isinstance(o, dict) and "crash" in o:
            js["crash"] = o["crash"]
        elif isinstance(o, dict) and "skipped" in o:
            continue
        else:
            js["crash"] = ""
            c.get("merge", merge_runs)(js, o)
            if c.get("default") and o and "cf" in o[0]:
                js["cf"] = o[0]["cf"]
        out.append((c, js))
    return out


def write_trace(path, items):
    with open(path, "w") as f:
        for _, js in items:
            f.write(json.dumps(js, separators=(",", ":")) + "\n")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.models = 0
        self.seen = collections.Counter()
        self.samples = []
        self.tags = collections.Counter()
        self.model_states = {}
        self.unconfirmed = 0

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def run_model(self, m):
        r = tlc(m.module, m.cfg, extra=m.extra)
        if not r["ok"]:
            raise CheckError("specification %s violates its own properties:\n%s" % (m.module, r["violation"][:3000]))
        self.states += r["distinct"]
        self.trans += r["states"]
        self.model_states[m.module] = self.model_states.get(m.module, 0) + r["distinct"]
        return r

    def judge(self, job, obs=None):
        """returns None or (case, js, clauses)"""
        exe = build([c["unit"] for c in job.cases] or [])
        obs = run_harness(exe, [c["line"] for c in job.cases])
        items = fill(job.cases, obs)
        d = tempfile.mkdtemp(prefix="j_", dir=CACHE)
        try:
            path = os.path.join(d, "trace.ndjson")
            write_trace(path, items)
            consts = dict(job.consts)
            consts.setdefault("Props", '{"%s"}' % self.pid)
            r = tlc(job.module, cfg_text(consts), {"TRACE": path})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if r["ok"]:
            self.states += r["distinct"]
            self.trans += r["states"]
            self.traces += len(items)
            self.seen.update(re.findall(r'<<"SEEN", "([^"]*)">>', r["out"]))
            self.tags.update(job.name + ":" + str(js.get("tag", "")) for _, js in items)
            if items and len(self.samples) < 4:
                self.samples.append({"job": job.name, "tag": items[0][1].get("tag", ""),
                                     "harness_input": items[0][0]["line"][:1500]})
            return None
        st = last_state(r["violation"])
        k = int(st.get("c", "1")) - 1
        return items[k][0], items[k][1], st.get("bad", "?")

    def conform(self, job, size=3000):
        for k in range(0, len(job.cases), size):
            sub = Job(job.module, job.cases[k:k + size], job.consts, job.name)
            v = self.judge(sub)
            if v is None:
                continue
            # a rejection counts only if it repeats: the failing case alone, else the whole batch again
            case, js, clauses = v
            again = self.judge(Job(job.module, [case], job.consts, job.name))
            batch = None
            if again is None:
                batch = self.judge(sub)
            if again is None and batch is None:
                self.unconfirmed += 1
                continue
            self.violation(job, again or batch)

    def violation(self, job, v):
        case, js, clauses = v
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.pid)
        with open(p, "w") as f:
            json.dump({"property": self.pid, "module": job.module, "clauses": clauses, "unit": case["unit"],
                       "line": case["line"], "trace": js, "consts": job.consts}, f)
        print("rejected by %s: %s (tag %s%s)" % (job.module, clauses, js.get("tag", ""),
                                                 ", " + js["crash"] if js.get("crash") else ""))
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        self.evidence(1)
        sys.exit(1)

    def evidence(self, violations, assumptions=None):
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": {"states": self.states, "transitions": self.trans,
                          "traces_validated_against_impl": self.traces,
                          "trace_kinds": dict(self.tags), "explained_steps": dict(self.seen),
                          "design_model_states": dict(tlagen.MODELS, **self.model_states), "unconfirmed_rejections": self.unconfirmed,
                          "samples": self.samples or ["violation before any batch was completed"]},
             "assumptions": assumptions or ["harness and TLC evaluate the same IEEE double arithmetic up to the "
                                            "tolerances written in the specification"],
             "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)


def main(plans):
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        ck = Check(rec["property"], "quick", 0)
        case = {"line": rec["line"], "js": {k: v for k, v in rec["trace"].items() if k != "runs"},
                "unit": (rec["unit"][0], tuple(rec["unit"][1]))}
        v = ck.judge(Job(rec["module"], [case], rec["consts"]))
        print("held" if v is None else "rejected: " + v[2])
        sys.exit(0 if v is None else 1)
    if sys.argv[1:] == ["--setup"]:
        classes()
        return
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(pid, tier, seed)
    try:
        os.makedirs(CACHE, exist_ok=True)
        budget = 700 if tier == "thorough" else 0
        rnd_no = 0
        # the accelerated operators against their TLA+ definitions
        ck.run_model(Model("MC_LinAlg", cfg=open(os.path.join(SPEC, "MC_LinAlg.cfg")).read()))
        while True:
            r = random.Random("%s/%d/%d" % (pid, seed, rnd_no))
            for job in plans[pid](r, tier, rnd_no):
                if isinstance(job, Model):
                    ck.run_model(job)
                else:
                    ck.conform(job)
                if rnd_no and ck.left(budget) <= 0:
                    break
            rnd_no += 1
            if ck.left(budget) <= 0:
                break
    except DoesNotCompile as e:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + ".txt")
        with open(p, "w") as f:
            f.write(str(e))
        print("a supported instantiation does not compile: " + str(e)[:600])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        ck.evidence(1)
        sys.exit(1)
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    ck.evidence(0)
    print("property %s held: %d traces, %d states, %.1f s" % (pid, ck.traces, ck.states, time.time() - ck.t0))
    for k, n in sorted(ck.seen.items()):
        print("   %-32s %d" % (k, n))
    sys.exit(0)
