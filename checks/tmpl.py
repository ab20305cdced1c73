"""C12: wrapped html/templates: random segment programs and an enumerated universe, histories of executions with failing
nodes and writers, validated against Tmpl.tla; what the nodes write alone is validated against the machine (Conf)."""
from lib import *
from gen import Gen
import gen as G
from sweep import sweep
from reword import reword

FEATURES = dict(fnmodes=("const",), attrs=0.5, dyn=0.4, fail=0.15, panics=0.04, raw=0.1, nasty=0.15,
                kinds=("el", "el", "void", "text", "comment", "coll", "cond", "iter", "cc", "imp", "frag"))
COUNT_SWEEP = {"quick": 250, "thorough": 0}
COUNT = {"quick": 500, "thorough": 6000}
LITS = ["text", "<b>bold</b>", "<ul><li>1</li></ul>", " ", "&amp;", "a &lt; b", "\n", "<p title=\"t\">x</p>", "", "it's", "<br>"]


class T:
    def __init__(self, g, conc):
        self.g, self.conc = g, conc
        self.els, self.ats = [], []

    def mark(self, names):
        return {"s": "mark", "n": self.g.pick(names), "via": self.g.pick(["", "", "", "pipe", "var"])}

    def segs(self, d, calls=True):
        g = self.g
        out = []
        for _ in range(g.r.randint(1, 4)):
            x = g.r.random()
            if x < 0.3:
                out.append({"s": "lit", "v": g.pick(LITS)})
            elif x < 0.52:
                out.append(self.mark(self.els))
            elif x < 0.55:
                tag = g.pick(["textarea", "title"])
                out += [{"s": "lit", "v": "<" + tag + ">"}, self.mark(self.els), {"s": "lit", "v": g.pick(["", "x", " "]) + "</" + tag + ">"}]
            elif x < 0.65 and self.ats:
                out.append({"s": "lit", "v": "<p "})
                for _ in range(g.r.choice([1, 1, 2])):
                    out.append(self.mark(self.ats))
                    out.append({"s": "lit", "v": " "})
                out.append({"s": "lit", "v": "class=\"z\">"})
                if d > 0:
                    out += self.segs(d - 1, calls)
                out.append({"s": "lit", "v": "</p>"})
            elif x < 0.73:
                out.append({"s": "lit", "v": g.pick(["<p title=\"", "<i class='a ", "<a data-x=\"", "<a href=\"", "<a href='/p?q=", "<b style=\"color: ", "<p title=\"a=b ", "<a hx-get=\"/"])})
                q = out[-1]["v"]
                for _ in range(g.r.choice([1, 1, 2])):
                    out.append(self.mark(self.els))
                tag = q[1]
                out.append({"s": "lit", "v": ("'" if "'" in q else "\"") + ">.</" + tag + ">"})
            elif x < 0.85 and d > 0:
                out.append({"s": "if", "key": g.pick(["b1", "b2"]), "a": self.segs(d - 1, calls), "b": self.segs(d - 1, calls) if g.chance(0.5) else []})
            elif x < 0.95 and d > 0:
                out.append({"s": "range", "key": g.pick(["l1", "l2"]), "a": self.segs(d - 1, calls)})
            elif calls:
                out.append({"s": "call", "n": g.pick(["da", "db"])})
        return out


def case(g, conc=False):
    t = T(g, conc)
    nodes = []
    for i in range(g.r.randint(1, 3)):
        nm = "n%d" % i
        n = {"k": "nil"} if g.chance(0.04) else g.node(g.r.choice([0, 1, 1, 2]))
        if g.chance(0.12):
            # one value only
            n = {"k": g.pick(["text", "text", "frag"]), "vs": [g.pick([{"t": "raw", "s": g.pick([G.SOH + "<b a='1'>&lt;\"x\"</b>" + G.STX, G.SOH + "&amp; \"" + G.STX, "r"])}, G.S(g.string()), g.fn(), G.KEY(g.pick(G.KEYS))])]}
        if n["k"] in ("attr", "battr", "dattr"):
            n = G.coll(n)
        nodes.append([nm, n])
        if n["k"] != "nil" or g.chance(0.3):
            t.els.append(nm)
    if not t.els:
        nodes.append(["m", G.text(G.S("m"))])
        t.els.append("m")
    for i in range(g.r.randint(0, 2)):
        nm = "a%d" % i
        n = g.attr() if hasattr(g, "attr") else {"k": "attr", "ctor": "NewAttribute", "n": "t%d" % i, "vs": g.vals(2)}
        if n["k"] in ("attr", "battr", "dattr"):
            n["n"] = n["n"] + str(i) if n["n"] else "x"
            nodes.append([nm, n])
            t.ats.append(nm)
    if g.chance(0.03):
        t.els.append("missing")
    defs = [["da", t.segs(1, False)], ["db", t.segs(1, False)]]
    execs = []
    for _ in range(g.r.choice([2, 2, 3]) if conc else g.r.randint(1, 4)):
        data = [kv for kv in g.data() if kv[0] not in ("b1", "b2", "l1", "l2")]
        for k in ("b1", "b2"):
            if g.chance(0.7):
                data.append([k, {"t": "bool", "b": g.chance(0.5)}])
        for k in ("l1", "l2"):
            if g.chance(0.7):
                data.append([k, {"t": "list", "ty": "any", "vs": [G.S("x")] * g.r.randint(0, 3)}])
        data.sort(key=lambda kv: kv[0])
        cargo = g.datum()
        if g.chance(0.12):
            cargo = {"t": "map", "m": data or g.data()}
            data = g.pick([[], [], data[:1]])
        execs.append({"data": data, "cargo": cargo, "at": -1 if conc or g.chance(0.7) else g.r.choice([0, 1, 5, 12, 20, 40, 80]), "rec": g.chance(0.5)})
    return {"nodes": nodes, "defs": defs, "segs": t.segs(2), "execs": execs, "reuse": g.chance(0.5)}


def randoms(n, salt, conc=False):
    out = []
    for j in range(n):
        f = dict(FEATURES)
        if j % 2:
            f.update(fnmodes=("const", "data", "cargo", "parent"), nasty=0.0)
        if conc:
            f["kinds"] = ("el", "void", "text", "cond", "iter", "imp")
        g = Gen("%s/tmpl/%d/%d" % (salt, SEED, j), **f)
        out.append({"id": "t%d" % j, "case": case(g, conc)})
    return out


def solos(traces, limit):
    """the nodes rendered alone, as programs"""
    out = []
    for t in traces[:limit]:
        c = t["case"]
        ops = []
        for nm, n in c["nodes"]:
            ops.append({"op": "make", "id": nm, "n": n})
            if n["k"] != "nil":
                for x in c["execs"]:
                    ops.append({"op": "render", "id": nm, "data": x["data"], "cargo": x["cargo"]})
        out.append({"id": t["id"], "case": {"u": False, "ops": ops}})
    return out


def check(ck, replay=None):
    if replay:
        tr = ck.observe("tmpl", [replay["case"]])
        for k, v in ck.validate("Tmpl", tr).items():
            ck.violation("tmpl", replay["case"], v["why"], observed=tr[0]["tr"])
        return
    uni = ck.universe()
    rnd = randoms(COUNT[TIER], "C12")
    swp = sweep("C12", COUNT_SWEEP[TIER], SEED)
    cases = uni + rnd + swp + reword(uni, 300 if TIER == "quick" else 3000, "C12/%d" % SEED)
    traces = ck.observe("tmpl", cases)
    rej = {}
    for a in range(0, len(traces), 3000):
        rej.update(ck.validate("Tmpl", traces[a:a + 3000]))
    so = solos(traces, len(traces))
    st = ck.observe("program", so)
    srej = {}
    for a in range(0, len(st), 3000):
        srej.update(ck.validate("Conf", st[a:a + 3000]))
    ck.samples = [uni[0], rnd[0], {"text": traces[-1]["tr"].get("text")}]
    ck.extra = {"exhaustive_universe": len(uni), "random_templates": len(rnd), "constructor_templates": len(swp), "executions": sum(len(c["case"]["execs"]) for c in cases),
                "with_failing_writer": sum(1 for c in cases for x in c["case"]["execs"] if x["at"] >= 0), "rejected": len(rej) + len(srej)}
    ck.assumptions = ["the text outside of markers is markup that html/template passes through unchanged",
                      "the bytes expected at a marker are those the node writes alone, which are validated against the machine"]
    if rej:
        bad = sorted((c for c in cases if c["id"] in rej), key=lambda c: len(json.dumps(c)))[:5]
        tr = ck.observe("tmpl", bad)
        again = ck.validate("Tmpl", tr, count=False)
        if not again:
            raise CheckError("rejected but not reproduced: %s" % sorted(rej.items())[:3])
        for t in tr:
            if t["id"] in again:
                ck.violation("tmpl", {"id": t["id"], "case": t["case"]}, again[t["id"]]["why"], observed=t["tr"])
    if srej:
        import programs
        programs.confirm(ck, st, srej, module="Conf")
