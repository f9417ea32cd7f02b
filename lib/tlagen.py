"""Cases enumerated by TLC from a generator specification (cached by the content of the module)."""
from vlib import *


def parse(s):
    """TLA+ value printed by TLC (integers, strings, tuples, records) -> Python"""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            out = []
            ws()
            while not s.startswith(">>", pos):
                out.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 2
            return out
        if s[pos] == "{":
            pos += 1
            out = []
            ws()
            while s[pos] != "}":
                out.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return out
        if s[pos] == "[":
            pos += 1
            out = {}
            ws()
            while s[pos] != "]":
                m = re.compile(r"\w+").match(s, pos)
                k = m.group()
                pos = m.end()
                ws()
                assert s.startswith("|->", pos)
                pos += 3
                out[k] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return out
        if s[pos] == '"':
            e = s.index('"', pos + 1)
            v = s[pos + 1:e]
            pos = e + 1
            return v
        m = re.compile(r"-?\d+|TRUE|FALSE").match(s, pos)
        pos = m.end()
        return {"TRUE": True, "FALSE": False}.get(m.group(), None) if m.group()[0] in "TF" else int(m.group())

    return val()


MODELS = {}          # states of the design models examined so far


def enumerate_cases(module, consts, spec="Spec", inv=(), props=()):
    """All <<"CASE", v>> values printed by TLC for the module, and the number of states."""
    h = hashlib.sha256()
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            h.update(open(os.path.join(SPEC, f), "rb").read())
    h.update(repr((module, sorted(consts.items()), inv, props)).encode())
    cache = os.path.join(CACHE, "gen_" + h.hexdigest()[:16] + ".json")
    if os.path.exists(cache):
        res = json.load(open(cache))
        MODELS["%s %s" % (module, consts)] = res["distinct"]
        return res
    r = tlc(module, cfg_text(consts, spec=spec, inv=inv, props=props, post=None), workers=1)
    if not r["ok"]:
        raise CheckError("generator %s: %s" % (module, r["violation"]))
    # TLC may evaluate the printing conjunct more than once
    texts = dict.fromkeys(m.group(1) for m in re.finditer(r'^<< ?"CASE",(.*?)>>$', r["out"], re.M | re.S))
    out = [parse(t) for t in texts]
    res = {"cases": out, "states": r["distinct"], "distinct": r["distinct"]}
    MODELS["%s %s" % (module, consts)] = res["distinct"]
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mktemp(dir=CACHE)
    json.dump(res, open(tmp, "w"))
    os.rename(tmp, cache)
    return res
