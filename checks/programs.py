"""The checks for properties of template programs: C01-C06, C09-C11, C13, C14, C16.

universe of the property (TLC enumerates it) + seeded random programs -> real code -> trace validation (Props.tla)."""
import json, random
from lib import *
from gen import Gen
import gen as G
from shrink import shrink
from sweep import sweep
from reword import reword

ALLK = ("el", "void", "text", "comment", "coll", "cond", "iter", "cc", "imp", "frag", "pi")
ALLK = ALLK + ("el", "el", "text", "coll", "cond")

# what the random programs of each property look like
FEATURES = {
    "C01": dict(nbsp=False, fnmodes=("const", "count"), nasty=0.8, kinds=ALLK, raw=0.05),
    "C02": dict(dyn=0.0, kinds=("el", "el", "el", "void", "void", "text", "comment", "coll", "frag", "pi", "doc"), nasty=0.2, attrs=0.25),
    "C03": dict(attrs=0.85, mixed=True, dyn=0.15, kinds=("el", "el", "void", "text", "coll", "imp", "cond")),
    "C04": dict(attrs=0.6, sets=0.2, kinds=("el", "el", "text", "coll", "cond", "cond", "cond", "void", "iter", "imp", "cc"),
                cond_kinds=("const", "key", "nkey", "key", "nkey", "cargo", "parentkey", "nilfn")),
    "C05": dict(sets=0.1, fnmodes=("const", "data", "cargo", "parent"), attrs=0.8, kinds=("el", "el", "text", "cond", "cond", "coll", "iter", "imp", "cc")),
    "C06": dict(panics=0.1, fail=0.06, attrs=0.6, nilp=0.12, pkg=0.2, pkg_attrs=("attr", "delim", "css", "prefixed", "prefixed", "hdr"), kinds=("el", "el", "text", "cond", "coll", "coll", "comment", "imp", "iter", "cc"), dyn=0.15, values_nodes=0.2),
    "C09": dict(puterr=0.04, fail=0.5, own=0.12, kinds=("el", "el", "coll", "cond", "iter", "cc", "imp", "imp", "text"), attrs=0.2),
    "C10": dict(sets=0.1, fail=0.06, panics=0.03, puterr=0.02, kinds=("el", "iter", "iter", "iter", "text", "text", "coll", "cond", "imp", "cc"), dyn=0.7, attrs=0.25),
    "C11": dict(kinds=("el", "imp", "imp", "imp", "text", "coll", "cond", "iter"), balanced=False, attrs=0.3),
    "C13": dict(sets=0.25, dyn=0.8, kinds=ALLK + ("cc", "iter", "imp"), attrs=0.4),
    "C14": dict(lits=0.6, dyn=0.4, other=0.15, kinds=ALLK, raw=0.15),
    "C17": dict(pkg=0.85, pkg_attrs=("css", "css", "css", "css", "delim", "delim", "hdr"), pkg_vals=0.25, attrs=0.8, mixed=False, condattrs=True,
                kinds=("el", "el", "text", "cond", "cond", "coll", "iter", "imp")),
    "C19": dict(pkg=0.8, attrs=0.6, pkg_attrs=("attr", "attr", "attr", "bool", "delim", "css", "prefixed", "hdr"), pkg_vals=0.1, kinds=("el", "text", "cond", "coll", "void")),
    "C16": dict(nilp=0.4, kinds=ALLK + ("imp", "iter", "cc", "doc"), attrs=0.4),
}
# number of random programs
COUNT = {"quick": 900, "thorough": 12000}
# number of programs of the universe with other words
REWORDED = {"quick": 700, "thorough": 9000}
# rounds of large ones
BIGS = {"quick": 2, "thorough": 16}


def randoms(prop, count, seed):
    out = []
    for j in range(count):
        f = dict(FEATURES[prop])
        if prop == "C10":
            # what callbacks do after an error (as changing the data) is not followed by the machine
            f.update((dict(sets=0.0, panics=0.0) if j % 6 == 0 else dict(sets=0.0, fail=0.0, puterr=0.0)) if j % 3 == 0 else dict(fail=0.0, panics=0.0, puterr=0.0))
        g = Gen("%s/%d/%d" % (prop, seed, j), **f)
        if prop == "C06" or (prop in ("C03", "C04") and j % 5 == 0):
            case = g.history(nodes=g.r.choice([3, 4, 5, 6]), depth=g.r.choice([1, 2, 3]))
        elif prop == "C16" and j % 4 == 0:
            case = badnames(g)
        else:
            case = g.program(depth=g.r.choice([2, 3, 3, 4]), renders=g.r.choice([1, 2, 2, 3]), times=4 if prop == "C05" else 1)
        out.append({"id": "r%d" % j, "case": case})
    for j in range(BIGS[TIER]):
        for kind in G.BIG + ("long",) * (8 if prop in ("C01", "C14") else 0) + ("lone",) * (12 if prop == "C01" else 0) + ("items",) * (2 if prop == "C10" else 0):
            k = len(out)
            g = Gen("%s/%d/big/%d/%d" % (prop, seed, j, k), **FEATURES[prop])
            out.append({"id": "b%d%s" % (k, kind), "case": g.big(kind)})
    return out


IMPLIED = ["p", "li", "td", "tr", "th", "option", "dt", "dd", "a", "button", "form", "body", "html", "head", "table", "select", "div", "span", "b", "i", "script", "pre", "br", "hr", "input", "col"]


def stacks(prop, count, seed):
    """elements of few names, opened inside each other, many of them names with which html parsers do something special"""
    out = []
    for j in range(count):
        g = Gen("%s/%d/stacks/%d" % (prop, seed, j), **FEATURES[prop])
        names = [g.pick(IMPLIED) for _ in range(g.r.choice([1, 1, 2, 3]))]
        if prop == "C02":
            def tree(d):
                n = g.pick(names)
                c = [tree(d - 1) if d > 0 and g.chance(0.7) else G.text(G.S(g.pick(["", "t", " "]))) for _ in range(g.r.randint(0, 3))]
                return {"k": "el", "ctor": g.pick(["NewElement", "Element", "NewElement", "NewVoidElement"]), "n": n, "c": c}
            n = tree(4)
        else:
            ops = []
            for _ in range(g.r.randint(3, 9)):
                x = g.r.random()
                ops.append({"o": "start", "n": g.pick(names), "void": g.chance(0.15), "as": []} if x < 0.6 else {"o": "end"} if x < 0.8 else {"o": "str", "s": "t"} if x < 0.9 else {"o": "endall"})
            n = {"k": "imp", "id": "m", "ops": ops + [g.pick([{"o": "endall"}, {"o": "end"}, {"o": "str", "s": "z"}])], "ret": ""}
        out.append({"id": "k%d" % j, "case": {"u": False, "ops": [{"op": "make", "id": "root", "n": n}, {"op": "render", "id": "root", "data": [], "cargo": G.NIL()}]}})
    return out


NAMECH = "abzAZ019._-: <>\"'=/\n\t\0&\\\x80\xe9\x7f!@`[{"


FOREIGN = ["\xc3\xa9", "\xc5\xbf", "\xe2\x84\xaa", "\xd0\xb0", "\xd9\xa1", "\xcc\x81", "\xc2\xa0", "\xe2\x80\xa8", "\xef\xbc\xa1", "\x0d", "\n", "^", "~", "%", "+"]


def badnames(g):
    """declarations with names of any shape, with the panic switch on or off"""
    seen = []
    def name():
        # names like earlier ones
        if seen and g.chance(0.2):
            n = g.pick(seen)
            n = n[:g.r.randint(0, len(n))] + "".join(g.pick(NAMECH) for _ in range(g.r.randint(0, 2)))
        else:
            n = any_name()
        seen.append(n)
        return n

    def any_name():
        x = g.r.random()
        if x < 0.3:
            return g.pick(["a", "b1", "x-y", "a:b", "A.b_c", "div", "br", "img", "z9"])
        if x < 0.6:
            return "".join(g.pick(NAMECH) for _ in range(g.r.randint(0, 5)))
        if x < 0.68:
            n = "".join(g.pick("abzAZ019._-:") for _ in range(g.r.choice([20, 70, 260])))
            return "n" + n if g.chance(0.5) else "n" + n + g.pick(FOREIGN) + n
        if x < 0.72:
            return g.pick(["", "a", "x1"]) + g.pick(FOREIGN) + g.pick(["", "a"])
        if x < 0.8:
            return "a" + "".join(g.pick(NAMECH) for _ in range(g.r.randint(0, 3)))
        return "".join(g.pick("abzAZ019._-:") for _ in range(g.r.randint(1, 6)))

    def part():
        n = name()
        k = g.pick(["Element", "VoidElement", "Attribute", "BooleanAttribute", "DelimitedAttribute"])
        if k == "Element":
            return {"k": "el", "ctor": k, "n": n, "c": [part() for _ in range(g.r.choice([0, 0, 1, 2]))]}
        if k == "VoidElement":
            return {"k": "el", "ctor": k, "n": n, "c": []}
        if k == "Attribute":
            return {"k": "attr", "ctor": k, "n": n, "vs": [G.S("v")]}
        if k == "BooleanAttribute":
            return {"k": "battr", "ctor": k, "n": n}
        return {"k": "dattr", "ctor": k, "n": n, "d": " ", "vs": [G.S("v"), G.S("w")]}
    ops = []
    for i in range(g.r.randint(1, 6)):
        ops.append({"op": "make", "id": "x%d" % i, "n": {"k": "el", "ctor": "NewElement", "n": "q", "c": [part() for _ in range(g.r.randint(1, 2))]}})
        ops.append({"op": "render", "id": "x%d" % i, "data": [], "cargo": G.NIL()})
    return {"u": False, "panics": g.chance(0.5), "ops": ops}


def prepare(prop, cases):
    for i, c in enumerate(cases):
        if c["case"].get("u") and i % 2:
            c["case"]["reuse"] = True
        if prop == "C05" and (c["case"].get("u") or c["id"][0] == "p"):
            for o in c["case"]["ops"]:
                if o["op"] == "render":
                    o["times"] = 12
    return cases


def confirm(ck, traces, rejected, mode="program", module="Props", env=None, tries=3, shrinks=True):
    """a rejected trace counts when the real code shows it again"""
    ids = [t for t in traces if t["id"] in rejected][:12]
    done = {}
    for _ in range(tries):
        left = [t for t in ids if t["id"] not in done]
        if not left:
            break
        again = ck.observe(mode, [{"id": t["id"], "case": t["case"]} for t in left])
        rej = ck.validate(module, again, env=env, count=False)
        for t in again:
            if t["id"] in rej:
                done[t["id"]] = (t, rej[t["id"]]["why"])
        if done:
            break
    if not done:
        raise CheckError("rejected but not reproduced: %s" % sorted(rejected)[:5])
    def rejects(cases):
        tr = ck.observe(mode, [{"id": "s%d" % i, "case": c} for i, c in enumerate(cases)])
        r = ck.validate(module, tr, env=env, count=False)
        return ["s%d" % i in r for i in range(len(cases))]
    t, why = min(done.values(), key=lambda x: len(json.dumps(x[0]["case"])))
    if shrinks:
        try:
            small = shrink(t["case"], rejects, rounds=12)
            tr = ck.observe(mode, [{"id": t["id"], "case": small}])
            r = ck.validate(module, tr, env=env, count=False)
            if t["id"] in r:
                ck.violation(mode, {"id": t["id"], "case": small}, r[t["id"]]["why"], observed=tr[0]["tr"], module=module)
        except CheckError as e:
            print("shrinking stopped: %s" % str(e)[:1500])
    for t, why in list(done.values())[:5 - len(ck.violations)]:
        ck.violation(mode, {"id": t["id"], "case": t["case"]}, why, observed=t["tr"], module=module)


def known(ck, traces, rej):
    """leaves out what is exactly a finding listed in known-findings.txt"""
    for key, text in known_findings(ck.prop).items():
        mine = [t for t in traces if t["id"] in rej and json.dumps(key) in json.dumps(t["case"])]
        if not mine:
            continue
        still = ck.validate("Props", mine, env={"KNOWN": key.split(".")[-1].lower()}, count=False)
        if len(still) < len(mine):
            print("KNOWN-FINDING: property=%s %s (%d programs)" % (ck.prop, text, len(mine) - len(still)))
            ck.extra["known_finding_programs"] = len(mine) - len(still)
        rej = {i: w for i, w in rej.items() if i in still or all(t["id"] != i for t in mine)}
    return rej


def check(ck, replay=None):
    prop = ck.prop
    if replay:
        t = ck.observe("program", [replay["case"]])
        rej = ck.validate("Props", t)
        for i, why in rej.items():
            ck.violation("program", replay["case"], why["why"], observed=t[0]["tr"], module="Props")
        return
    uni = ck.universe()
    rnd = randoms(prop, COUNT[TIER], SEED)
    swp = sweep(prop)
    # C16 and C19 are about the names
    rwd = reword(uni, REWORDED[TIER], "%s/%d" % (prop, SEED), names=prop != "C19") if prop != "C16" else []
    rwd += stacks(prop, REWORDED[TIER], SEED) if prop in ("C02", "C11") else []
    cases = prepare(prop, uni + rnd + swp + rwd)
    traces = ck.observe("program", cases)
    rej = {}
    size = 6000
    for a in range(0, len(traces), size):
        rej.update(ck.validate("Props", traces[a:a + size]))
    ck.samples = [uni[0], rnd[0], rnd[-1]]
    ck.extra = {"exhaustive_universe": len(uni), "random_programs": len(rnd), "constructor_programs": len(swp), "reworded_programs": len(rwd), "rejected": len(rej),
                "renderings": sum(1 for c in cases for o in c["case"]["ops"] if o["op"] == "render")}
    ck.assumptions = ["the syntax trees of the universes are built with the exported constructors of the packages",
                      "what was written is read back by the harness's tokenizer; caller-supplied raw bytes are delimited by U+0001/U+0002",
                      "random programs beyond the exhaustive universe sample, they do not enumerate"]
    rej = known(ck, traces, rej)
    if rej:
        confirm(ck, traces, rej)
