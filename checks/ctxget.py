"""C15: typed lookups.  TLC enumerates data, cargo shapes; struct shapes become Go types; every lookup is validated."""
import os, random, shutil
from lib import *

TY = {"string": "string", "int": "int", "nil": "any", "NS": "NS", "stringer": "gStringer", "err": "gErr", "both": "gBoth", "strptr": "*string",
      "bytes": "[]byte", "map": "map[string]any", "bool": "bool", "float64": "float64"}


def expr(v):
    x = v["v"]
    t, _, s = x.partition(":")
    q = '"%s"' % s
    return {"string": q, "int": s, "nil": "nil", "NS": "NS(%s)" % q, "stringer": "gStringer{%s}" % q, "err": "gErr{%s}" % q, "both": "gBoth{%s}" % q,
            "strptr": "(*string)(nil)" if s == "nil" else "thePtr", "bytes": "[]byte(%s)" % q, "map": 'map[string]any{"K": "inner"}',
            "bool": s, "float64": s}[t]


def types(fs, name, out):
    """declares the type of a struct shape (embedded ones first); the composite literal of it"""
    decl, lit = [], []
    for f in fs:
        if "emb" in f:
            l = types(f["fs"], f["n"], out)
            decl.append(f["n"] if f["emb"] == "val" else "*" + f["n"])
            lit.append("%s: %s" % (f["n"], {"val": l, "ptr": "&" + l, "nil": "nil"}[f["emb"]]))
        else:
            decl.append("%s %s `json:\"absent\" key:\"absent\"`" % (f["n"], "any" if f.get("any") else TY[f["v"]["ty"]]))
            lit.append("%s: %s" % (f["n"], expr(f["v"])))
    out.append("type %s struct { %s }" % (name, "; ".join(decl)))
    return "%s{%s}" % (name, ", ".join(lit))


def shape_of(c):
    x, stars = c, 0
    while x["c"] == "ptr":
        x, stars = x["p"], stars + 1
    return (x, stars) if x["c"] == "struct" else (None, 0)


def generate(cases):
    src = ["package main", "func init() {"]
    seen = {}
    for c in cases:
        s, stars = shape_of(c["case"]["cargo"])
        if not s:
            continue
        k = json.dumps([s, stars], sort_keys=True)
        if k not in seen:
            seen[k] = "s%d" % len(seen)
            out = []
            lit = types(s["fs"], "Cargo", out)
            body = "; ".join(out) + "; v := " + lit
            for i in range(stars):
                body += "; v%d := &v%s" % (i + 1, i or "")
            src.append('cargoTypes["%s"] = func() any { %s; return v%s }' % (seen[k], body, stars or ""))
        c["case"]["shape"] = seen[k]
    src.append("}")
    return "\n".join(src) + "\n", len(seen)


def randoms(n):
    """larger structs: random trees of embedding"""
    out = []
    for j in range(n):
        r = random.Random("C15/%d/%d" % (SEED, j))
        leaves = [{"ty": "string", "v": "string:x%d" % i} for i in range(4)] + [{"ty": "int", "v": "int:%d" % i} for i in (0, 5)] + \
                 [{"ty": "nil", "v": "nil"}, {"ty": "NS", "v": "NS:n"}, {"ty": "both", "v": "both:b"}, {"ty": "strptr", "v": "strptr:nil"}]

        def fs(d, pre):
            fl = []
            for nm in ("K", "k", "L", "A", "B", "a", "AC", "Long", "long", "LONG"):
                if r.random() < 0.2:
                    f = {"n": nm, "v": r.choice(leaves)}
                    if f["v"]["ty"] != "nil" and r.random() < 0.2:
                        f["any"] = True
                    fl.append(f)
            if d > 0:
                have = {f["n"] for f in fl}
                for i in range(r.choice([0, 1, 1, 2, 3])):
                    nm = (r.choice(["A", "B", "a", "AC"]) if pre == "" else r.choice("XYxy") + pre) + ("" if r.random() < .5 and pre == "" else str(i))
                    if nm not in have and nm not in used:
                        used.add(nm)
                        have.add(nm)
                        fl.append({"n": nm, "emb": r.choice(["val", "val", "ptr", "ptr", "nil"]), "fs": fs(d - 1, nm)})
            r.shuffle(fl)
            return fl
        used = set()
        c = {"c": "struct", "fs": fs(3, "")}
        if r.random() < 0.5:
            c = {"c": "ptr", "p": c}
        data = [[r.choice(["K", "long", "Long"]), 0]] if r.random() < 0.3 else []
        for d in data:
            d[1] = r.choice([{"ty": "string", "v": "string:s"}, {"ty": "int", "v": "int:0"}, {"ty": "nil", "v": "nil"}, {"ty": "both", "v": "both:b"}])
        out.append({"id": "r%d" % j, "case": {"data": data, "cargo": c}})
    return out


def check(ck, replay=None):
    if replay:
        cases = [replay["case"]]
        cases[0]["case"].pop("shape", None)
    else:
        cases = ck.universe()
        nu = len(cases)
        cases = cases + randoms(300 if TIER == "quick" else 4000)
        for c in cases:
            if TIER == "quick":
                c["case"]["few"] = True
    src, shapes = generate(cases)
    d = ck.source()
    with open(os.path.join(d, "gen_ctx.go"), "w") as f:
        f.write(src)
    tr = ck.observe("ctxget", cases)
    rej = {}
    for a in range(0, len(tr), 4000):
        rej.update(ck.validate("CtxGet", tr[a:a + 4000]))
    if not replay:
        ck.samples = [cases[0]["case"], cases[nu // 2]["case"], cases[-1]["case"]]
        ck.extra = {"exhaustive_universe": nu, "random_structs": len(cases) - nu, "struct_types": shapes, "lookups": sum(len(t["tr"].get("looks", [])) for t in tr),
                    "rejected": len(rej)}
        ck.assumptions = ["embedded interfaces and types from other packages are not among the cargo shapes"]
    bad = sorted((t for t in tr if t["id"] in rej), key=lambda t: len(json.dumps(t["case"])))[:5]
    for t in bad:
        ck.violation("ctxget", {"id": t["id"], "case": t["case"]}, rej[t["id"]]["why"])
