"""Cases enumerated by TLC from Containers.tla: operations on variables and coefficients, constructions with dimensions."""
from vlib import *
from tlagen import enumerate_cases

UNIT = ("containers.cpp", ())
TYPES = [(2, -1, -1), (2, 1, 2), (1, -1, 1), (3, 2, -1)]


def words(x):
    if isinstance(x, (list, tuple)):
        return " ".join(words(e) for e in x)
    return str(x)


def enum(kind, type_, maxn):
    return [c["ops"] for c in enumerate_cases("Containers", {"NX": str(type_[0]), "TU": str(type_[1] % 10), "TG": str(type_[2] % 10),
                                                             "MaxN": str(maxn), "Kind": '"%s"' % kind},
                                              inv=("ResetAll", "Lengths", "Recovers"), props=("Kept",))["cases"]]


def case(kind, type_, ops):
    if kind == "variable":
        body = str(len(ops)) + " " + " ".join(
            "dims %d %s" % (len(op[1]), words(op[1])) if op[0] == "dims" else words(op) for op in ops)
    else:
        body = words(ops)
    head = "cont %s " % kind + ("" if kind == "dims" else "%d,%d,%d " % type_)
    return {"line": head + body, "unit": UNIT,
            "js": {"nx": type_[0], "nu": type_[1] % 10, "ng": type_[2] % 10, "ops": ops, "tag": kind, "crash": "", "runs": []}}


def containers(r, thorough):
    out = []
    for t in TYPES:
        v = enum("variable", t, 2)
        # a history is contained in the longer ones
        full = [o for o in v if len(o) == 5 or len(o) == 3]
        out += [case("variable", t, o) for o in (full if thorough else r.sample(full, min(len(full), 1500)))]
        co = enum("coefficient", t, 0)
        out += [case("coefficient", t, o) for o in (co if thorough else r.sample(co, min(len(co), 1200)))]
    return out


def dims():
    return [case("dims", TYPES[0], o) for o in enum("dims", TYPES[0], 0)]
