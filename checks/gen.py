"""Seeded random programs for the conformance runs (syntax trees as in spec/Aitch.tla)."""
import json, os, random

CATALOG = {k: v["kind"] for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "catalog.json"))).items()
           if k != "html.Track"}


def ctors(*kinds, pkg=""):
    return sorted(k for k, v in CATALOG.items() if v in kinds and k.startswith(pkg))


CT_ATTR = {k: ctors(k) for k in ("attr", "bool", "delim", "css", "prefixed")}
CT_EL, CT_VOID, CT_UNIT, CT_CONST = ctors("el"), ctors("void"), ctors("unit"), ctors("const")

BIG = ("long", "wide", "deep", "attrs", "items", "values", "stack")

names_own = ["id", "b", "class", "own", "m"]

SOH, STX = "\x01", "\x02"
WORDS = ["alpha", "b", "Cc", "d4", "e-e", "f_f", "g.g", "h", "x1", "zz top", "q,r", "0"]
NASTY = ["<", ">", "&", '"', "'", "\0", "<b>", "</b>", "-->", "--", "&amp;", "&lt", "a=\"b\"", "]]>", "<!--", "&#39;",
         "\n", "\t", "\r", "\x7f", "\xe2\x82\xac", "\xff", "javascript:", "on'\"<>&x", "&&", "<<<", "\0\0", "/>", "%", "\\", "a\0b"]
EL = ["div", "p", "span", "ul", "li", "x-y", "H1", "a", "section"]
VOID = ["br", "img", "input", "hr", "wbr", "area", "base", "col", "embed", "link", "meta", "param", "source", "track"]
PLAIN = ["id", "title", "href", "data-x", "b"]
BOOL = ["hidden", "disabled"]
DELIM = [("class", " "), ("style", "; "), ("hx-trigger", " "), ("vals", ", "), ("sep", "")]
KEYS = ["k1", "k2", "k3", "name", "flag"]
ODDKEYS = ["", "!k1", " k1", "k1.", "..", ".name", "K1", "k1\n", "\xc3\xa9"]   # keys like others, and unlike any


def S(s): return {"t": "str", "s": s}
def NIL(): return {"t": "nil"}
def KEY(k): return {"t": "key", "key": k}
def text(*vs): return {"k": "text", "vs": list(vs)}
def coll(*ns): return {"k": "coll", "ns": list(ns)}
def NILN(): return {"k": "nil"}


class Gen:
    def __init__(self, seed, **f):
        self.r = random.Random(seed)
        self.f = dict(words=WORDS, nasty=0.0, dyn=0.3, raw=0.1, kinds=("el", "void", "text", "comment", "coll"),
                      attrs=0.5, mixed=False, condattrs=True, cond_kinds=("const", "key", "nkey"), fail=0.0, puterr=0.0, panics=0.0,
                      lits=0.1, nilp=0.0, values_nodes=0.05, fnmodes=("const", "count", "data", "cargo", "parent"),
                      balanced=True, pkg=0.08, pkg_attrs=("attr", "attr", "bool", "delim", "css", "css", "prefixed", "hdr"), pkg_vals=0.02, nbsp=True, other=0.03, litcontent=0.25, refs=(), own=0.04, sets=0.0)
        self.f.update(f)
        self.ids = 0
        self.errs = set()

    def id(self, p):
        self.ids += 1
        return "%s%d" % (p, self.ids)

    def err(self):
        known = [e for e in ("EOF", "canceled", "short", "again", "closed") if e not in self.errs]
        if known and self.chance(0.25):
            e = self.pick(known)
            self.errs.add(e)
            return e
        return self.id("e")

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(list(xs))

    # ---- strings and values
    def string(self):
        r = self.r
        if self.chance(self.f["nasty"]):
            n = r.choice([1, 1, 2, 3, 5, 12])
            return "".join(r.choice(NASTY + self.f["words"]) for _ in range(n))
        if self.chance(0.08):
            return ""
        if self.chance(0.02):
            return "".join(r.choice(self.f["words"]) for _ in range(r.randint(20, 60)))
        return r.choice(self.f["words"])

    def lit(self):
        r = self.r
        if self.chance(0.25):
            return {"t": "lit", "ty": "int", "s": str(r.choice([r.randint(-130, 300), r.choice([1, -1]) * 10 ** r.randint(1, 18) + r.randint(-1, 1)]))}
        ty = r.choice(["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"])
        if ty.startswith("float"):
            if ty == "float64" and self.chance(0.5):
                return {"t": "lit", "ty": ty, "s": repr(r.choice([-1, 1]) * (r.random() + r.choice([0.001, 1, 1000, 9e5])))}
            return {"t": "lit", "ty": ty, "s": r.choice(["1.5", "0.25", "-3", "100", "0", "0.1", "8191.125", "0.001"])}
        bits = int(ty.lstrip("uint") or 64)
        if ty[0] == "u":
            v = r.choice([0, 1, 7, 42, 2 ** bits - 1, 2 ** (bits - 1), r.randrange(2 ** bits)])
        else:
            v = r.choice([0, 1, -1, 42, 2 ** (bits - 1) - 1, -2 ** (bits - 1), r.randrange(-2 ** (bits - 1), 2 ** (bits - 1))])
        return {"t": "lit", "ty": ty, "s": str(v)}

    def raw(self):
        return {"t": "raw", "s": self.r.choice(["raw", "", SOH + "<b a='1'>" + STX, SOH + "&nbsp;\"" + STX, "r2"])}

    def fn(self):
        m = self.pick(self.f["fnmodes"])
        s = {"const": self.pick(["fx", "", "dyn val", SOH + "<i>" + STX]), "data": self.pick(KEYS)}.get(m, "")
        return {"t": "fn", "id": self.id("f"), "mode": m, "s": s, "plain": self.chance(0.3)}

    def datum(self, d=2):
        """a value as found in data or as an item"""
        r = self.r
        x = r.random()
        if x < 0.45:
            return S(self.string())
        if x < 0.55:
            return {"t": "bool", "b": self.chance(0.5)}
        if x < 0.65:
            return self.lit()
        if x < 0.70:
            return {"t": "strg", "s": self.string()}
        if x < 0.715:
            return self.pick([{"t": "lit", "ty": "int", "s": "0"}, {"t": "lit", "ty": "float64", "s": "0"}, S(""), {"t": "list", "ty": "any", "vs": []}, {"t": "map", "m": []}, S("false")])
        if x < 0.74:
            return {"t": "fany", "v": self.datum(0)}
        if x < 0.78:
            return self.raw()
        if x < 0.82:
            return NIL()
        if x < 0.84:
            return {"t": "other", "s": self.pick(["struct", "ptr", "chan", "namedint", "error", "array", "mapss", "strptr", "namedstring", "html", "namedbool", "boolptr", "nilptr", "bytearray", "func", "funcs", "ctxfunc", "nilfunc", "complex", "buffer"])}
        if d > 0 and x < 0.92:
            return {"t": "map", "m": self.data(d - 1)}
        if d > 0:
            n = r.randint(0, 4)
            ty = r.choice(["any", "any", "any", "named", "string", "int", "map"])
            if ty == "string":
                vs = [S(self.string() * (self.r.choice([1, 1, 1, 40]))) for _ in range(n)]
            elif ty == "int":
                vs = [{"t": "lit", "ty": "int", "s": str(r.randint(-9, 99))} for _ in range(n)]
            elif ty == "map":
                vs = [{"t": "map", "m": [], "nil": True} if self.chance(0.15) else {"t": "map", "m": self.data(d - 1)} for _ in range(n)]
            else:
                vs = [self.datum(d - 1) for _ in range(n)]
            if ty in ("any", "named") and vs and self.chance(0.15):
                # alike at the end
                vs += [self.pick([NIL(), vs[-1], vs[0], S("")])] * self.r.randint(1, 3)
            return {"t": "list", "ty": ty, "vs": vs}
        return S(self.string())

    def data(self, d=2):
        ks = sorted([k for k in KEYS if self.chance(0.6)] + [k for k in ODDKEYS if self.chance(0.1)])
        m = [[k, self.datum(d)] for k in ks]
        return m

    def val(self, d=2, node_ok=True):
        r, f = self.r, self.f
        x = r.random()
        if x < f["dyn"]:
            y = r.random()
            if y < 0.45:
                return KEY(self.pick(ODDKEYS if self.chance(0.08) else KEYS + ["."]))
            return self.fn()
        if self.chance(f["pkg_vals"]):
            return self.pkg_val()
        x = r.random()
        if x < f["raw"]:
            return self.raw()
        if self.chance(f["lits"]):
            return self.pick([self.lit(), {"t": "bool", "b": self.chance(0.5)}])
        if self.chance(0.05):
            return {"t": "strg", "s": self.string()}
        if self.chance(0.05):
            return {"t": "fany", "v": self.pick([S(self.string()), self.lit(), NIL(), {"t": "fany", "v": S(self.string())}])}
        if d > 0 and self.chance(0.10):
            return {"t": "cat", "vs": [self.val(d - 1) for _ in range(r.randint(0, 3))]}
        if d > 0 and self.chance(0.05):
            return {"t": "val", "v": self.val(d - 1)}
        if self.chance(0.04):
            return NIL()
        if self.chance(f["other"]):
            return {"t": "other", "s": self.pick(["struct", "ptr", "chan", "namedstring", "mapss", "complex", "func", "html", "namedbool", "boolptr", "nilptr", "bytearray", "namedbytes", "runes", "strings", "anys", "nilfunc", "funcs", "buffer"])}
        if node_ok and d > 0 and self.chance(f["values_nodes"]):
            n = self.pick([lambda: text(*self.vals(2, d - 1)),
                           lambda: {"k": "attr", "ctor": "NewAttribute", "n": self.pick(PLAIN), "vs": self.vals(2, d - 1)},
                           lambda: {"k": "comment", "vs": self.vals(2, d - 1)},
                           lambda: coll(text(*self.vals(2, d - 1)), text(*self.vals(1, d - 1))),
                           lambda: {"k": "el", "ctor": "NewElement", "n": "u", "c": []}])()
            return {"t": "node", "n": n}
        return S(self.string())

    def vals(self, n, d=2):
        if self.chance(0.04):
            return [NIL() for _ in range(self.r.randint(1, 3))]
        vs = [self.val(d) for _ in range(self.r.randint(0, n))]
        if self.chance(0.06):
            for _ in range(self.r.randint(1, 3)):
                vs.insert(self.r.randint(0, len(vs)), NIL())
        return vs

    # ---- attributes
    def attr(self):
        r, f = self.r, self.f
        x = r.random()
        refs = [i for i, kind in f["refs"] if kind == "attr"]
        if refs and self.chance(0.3):
            return {"k": "ref", "id": self.pick(refs)}
        if self.chance(f["own"] * 0.7):
            return {"k": "cattr", "n": self.pick(names_own), "s": self.string()}
        if self.chance(f["pkg"]):
            return self.pkg_attr()
        names = PLAIN + BOOL + [d[0] for d in DELIM] + ["ID", "Class", "data-X"]
        if f["mixed"] and self.chance(0.3):
            nm = self.pick(["m", "n", "class", "id"])
            kind = self.pick(["attr", "battr", "dattr"])
        else:
            nm = self.pick(names)
            kind = "attr" if nm in PLAIN else "battr" if nm in BOOL else "dattr"
        chk = self.chance(0.5)
        if kind == "attr":
            return {"k": "attr", "ctor": "Attribute" if chk else "NewAttribute", "n": nm, "vs": self.vals(2)}
        if kind == "battr":
            return {"k": "battr", "ctor": "BooleanAttribute" if chk else "NewBooleanAttribute", "n": nm}
        return {"k": "dattr", "ctor": "DelimitedAttribute" if chk else "NewDelimitedAttribute", "n": nm,
                "d": dict(DELIM).get(nm, " ") if self.chance(0.85) else self.pick([" ", ",", "; ", "", ". "]), "vs": self.vals(3)}

    def own(self, d):
        """a node of the user's own"""
        return {"k": "custom", "ty": self.pick(["el", "text", "comment", "pi", "doc", "frag", "own", "anon", "neg"]), "n": self.pick(["my", "own-x", "u"]),
                "ns": self.kids(d, 3, 0.1), "ret": self.err() if self.chance(self.f["fail"]) else ""}

    def pkg_attr(self):
        kind = self.pick(self.f["pkg_attrs"])
        if kind == "hdr":
            js = self.chance(0.4)
            if not js and self.chance(0.3):
                return {"k": "hdr", "js": False, "vs": self.vals(3)}
            return {"k": "hdr", "js": js, "vs": [self.headers() for _ in range(self.r.choice([0, 1, 1, 2, 3] if js else [1, 1, 2, 3]))]}
        o = {"k": "pkg", "f": self.pick(CT_ATTR[kind]), "nm": "", "c": []}
        if kind == "prefixed":
            o["nm"] = self.pick(["x", "y", "long-name-of-it", "Aa.b_c", "click", "data-x", "aria-x", "hx-on:x", "on:x"])
        if kind != "bool":
            o["c"] = self.vals(3)
        return o

    def headers(self):
        ks = self.r.sample(["A", "B", "a", "X-Y", "X-Z", "Accept", "c d", "'q'", "z_1", "0", "AA", "b", "z", "x-y", "Q1", "Q10"], self.r.choice([0, 1, 2, 3, 4, 4, 12]))
        if self.chance(self.f["nasty"]):
            ks += ["n" + "".join(self.r.choice(NASTY) for _ in range(self.r.randint(1, 3)))]
        return {"t": "hmap", "m": [[k, self.val(1, node_ok=False)] for k in ks]}

    def pkg_val(self):
        x = self.r.random()
        if x < 0.3:
            return {"t": "pkg", "f": self.pick(CT_CONST), "nm": "", "vs": []}
        if x < 0.6:
            return {"t": "pkg", "f": self.pick(CT_UNIT), "nm": "", "vs": self.vals(2, 1)}
        if x < 0.8:
            return {"t": "pkg", "f": "htmx.Var", "nm": self.string(), "vs": [self.val(1)]}
        if not self.f["nbsp"]:
            return S(self.string())
        n = self.r.randint(0, 4)
        return {"t": "nbsp", "count": n, "n": n != 1 or self.chance(0.5)}

    def pkg_node(self, d):
        x = self.r.random()
        if x < 0.6 and d > 0:
            return {"k": "pkg", "f": self.pick(CT_EL), "nm": "", "c": self.contents(d)}
        if x < 0.8:
            return {"k": "pkg", "f": self.pick(CT_VOID), "nm": "", "c": self.contents(d, 3) if d > 0 else [self.attr()]}
        if x < 0.9:
            return {"k": "pkg", "f": self.pick(["html.Text", "svg.Text"]), "nm": "", "c": self.vals(3)}
        if x < 0.96:
            return {"k": "pkg", "f": self.pick(["html.Comment", "svg.Comment"]), "nm": "", "c": self.vals(2)}
        return self.pick([{"k": "doctype"}, {"k": "pkg", "f": "html.PI", "nm": "xml", "c": self.vals(2)}])

    def condition(self):
        c = self.pick(self.f["cond_kinds"])
        if c == "const":
            return {"c": "const", "b": self.chance(0.6)}
        if c in ("key", "nkey", "parentkey"):
            key = self.pick(ODDKEYS if self.chance(0.1) else KEYS)
            if c == "key" and key.startswith("!"):
                c = "nkey"   # for When, a negation
            return {"c": c, "key": key}
        if c == "cargo":
            return {"c": c, "s": self.pick(self.f["words"])}
        return {"c": "nilfn"}

    # ---- nodes
    def kids(self, d, width=4, attrs=None):
        """nodes, among them attributes"""
        r = self.r
        out = []
        for _ in range(r.randint(0, width)):
            if self.chance(self.f["nilp"]):
                out.append(NILN())
            if self.chance(self.f["attrs"] if attrs is None else attrs):
                out.append(self.attr())
            else:
                out.append(self.node(d - 1))
        return out

    def contents(self, d, width=5):
        out = []
        for n in self.kids(d, width):
            if self.chance(self.f["litcontent"] * 0.5):
                out.append(self.val(1, node_ok=False))
            out.append(n)
        return out

    def src(self):
        s = self.pick(["fn", "yield", "key", "key", "fnkey", "yieldkey"])
        o = {"s": s, "id": self.id("i"), "key": self.pick(KEYS), "items": []}
        if s in ("fn", "yield"):
            o["items"] = [self.datum() for _ in range(self.r.choice([0, 1, 2, 3, 4]))]
        return o

    def ops(self, d):
        r = self.r
        out, open_ = [], 0
        for _ in range(r.randint(0, 6)):
            x = r.random()
            if self.f["sets"] and self.chance(self.f["sets"]):
                out.append({"o": "set", "key": self.pick(KEYS), "v": self.pick([self.datum(1), {"t": "bool", "b": self.chance(0.5)}])})
            if self.f["puterr"] and self.chance(self.f["puterr"]):
                out.append({"o": "err", "s": self.err()})
            if x < 0.3:
                v = self.chance(0.25)
                out.append({"o": "start", "n": self.pick(VOID if v else EL), "void": v,
                            "as": [self.attr() if self.chance(0.85) else self.pick([text(S("no")), NILN(), coll(self.attr()), {"k": "cond", "via": "Conditional", "c": {"c": "const", "b": True}, "ns": [self.attr()]}])
                                   for _ in range(r.randint(0, 4))]})
                open_ += 0 if v else 1
            elif x < 0.5:
                out.append({"o": "str", "s": self.string()})
            elif x < 0.58:
                out.append({"o": "raw", "s": self.raw()["s"]})
            elif x < 0.75:
                out.append({"o": "nodes", "ns": self.kids(d, 2, 0.15)})
            elif x < 0.92:
                if open_ > 0 or not self.f["balanced"]:
                    out.append({"o": "end"})
                    open_ = max(0, open_ - 1)
            else:
                out.append({"o": "endall"})
                open_ = 0
        if open_ and self.f["balanced"]:
            out.append({"o": "endall"})
        return out

    def node(self, d):
        r, f = self.r, self.f
        if f["refs"] and self.chance(0.25):
            c = [i for i, kind in f["refs"] if kind == "node"]
            if c:
                return {"k": "ref", "id": self.pick(c)}
        if d > 0 and self.chance(f["own"]):
            return self.own(d)
        if self.chance(f["pkg"]):
            return self.pkg_node(d)
        k = self.pick(f["kinds"]) if d > 0 else self.pick([x for x in f["kinds"] if x in ("text", "comment", "void", "frag", "pi")] or ["text"])
        if k == "el":
            return {"k": "el", "ctor": self.pick(["Element", "NewElement"]), "n": self.pick(EL), "c": self.contents(d)}
        if k == "void":
            ctor = self.pick(["Element", "VoidElement", "NewVoidElement"])
            n = self.pick(VOID if ctor == "Element" else VOID + EL)
            return {"k": "el", "ctor": ctor, "n": n, "c": self.contents(d if d > 0 else 0, 3) if d > 0 else [self.attr()]}
        if k == "text":
            return text(*self.vals(3))
        if k == "comment":
            return {"k": "comment", "vs": self.vals(2)}
        if k == "frag":
            return {"k": "frag", "vs": self.vals(2)}
        if k == "pi":
            return {"k": "pi", "n": self.pick(["DOCTYPE", "xml", "ENTITY"]), "vs": self.vals(2)}
        if k == "coll":
            return coll(*self.kids(d))
        if k == "cond":
            c = self.condition()
            via = "When" if c["c"] in ("key", "nkey") and self.chance(0.6) else "Conditional"
            return {"k": "cond", "via": via, "c": c, "ns": self.kids(d, 4, None if f["condattrs"] else 0)}
        if k == "iter":
            src = self.src()
            if src["s"] != "key" and self.chance(f["puterr"]):
                src["err"] = self.err()
                if src["s"].startswith("yield"):
                    src["ek"] = self.pick([0, 0, 1, 2, 3])
            if src["s"].startswith("yield") and self.chance(0.35):
                src["bt"] = self.pick([", ", "|", "\n"])
            return {"k": "iter", "src": src, "ns": self.kids(d, 3, 0.1)}
        if k == "cc":
            cc = {"k": "cc", "id": self.id("c"), "ns": self.kids(d, 3, 0.15)}
            if self.chance(f["puterr"]):
                cc["err"] = self.err()
            return cc
        if k == "imp":
            ret = "panic" if self.chance(f["panics"]) else self.err() if self.chance(f["fail"]) else ""
            n = {"k": "imp", "id": self.id("m"), "ops": self.ops(d), "ret": ret}
            if ret and self.chance(0.5):
                n["rk"] = [self.pick(KEYS)]   # only if the key is there
            return n
        if k == "doc":
            return {"k": "doc", "lang": self.pick([NIL(), S("en"), KEY("k1"), S(""), self.val(1, False)]),
                    "head": self.contents(d - 1, 2), "body": self.contents(d - 1, 3)}
        raise ValueError(k)

    def cargo(self):
        return self.datum()

    # ---- programs
    def root(self, depth, width=6):
        x = self.r.random()
        if x < 0.12:
            # long and flat
            return {"k": "el", "ctor": "NewElement", "n": "main", "c": sum((self.contents(1, 3) for _ in range(self.r.randint(4, 25))), [])}
        if x < 0.22:
            # deep and narrow
            n = {"k": "el", "ctor": "NewElement", "n": "leaf", "c": self.contents(1, 2)}
            for _ in range(self.r.randint(6, 24)):
                n = self.wrap(n)
            return n
        return {"k": "el", "ctor": "NewElement", "n": "main", "c": self.contents(depth, width)}

    def wrap(self, n):
        ks = [k for k in self.f["kinds"] if k in ("el", "coll", "cond", "iter", "cc", "imp")] or ["el"]
        k = self.pick(ks)
        around = lambda: [self.node(0)] if self.chance(0.4) else []
        at = lambda p=0.6: [self.attr()] if self.chance(self.f["attrs"] * p) else []
        if k == "coll":
            return coll(*(around() + [n] + around()))
        if k == "cond":
            return {"k": "cond", "via": "Conditional", "c": self.condition() if self.chance(0.3) else {"c": "const", "b": True},
                    "ns": around() + (at() if self.f["condattrs"] else []) + [n] + around()}
        if k == "iter":
            s = self.src()
            if s["s"] in ("fn", "yield"):
                s["items"] = [self.datum() for _ in range(self.r.choice([1, 1, 1, 2]))]
            return {"k": "iter", "src": s, "ns": around() + [n] + around()}
        if k == "cc":
            return {"k": "cc", "id": self.id("c"), "ns": around() + [n] + around()}
        if k == "imp":
            ret = self.err() if self.chance(self.f["fail"] * 0.3) else ""
            return {"k": "imp", "id": self.id("m"), "ret": ret,
                    "ops": [{"o": "start", "n": self.pick(EL), "void": False, "as": at()}, {"o": "nodes", "ns": around() + [n]},
                            {"o": "str", "s": self.string()}, {"o": "end"}]}
        return {"k": "el", "ctor": self.pick(["Element", "NewElement"]), "n": self.pick(EL), "c": at() + around() + [n] + around() + at(0.3)}

    # ---- large ones
    def lone(self):
        """a long string with one character that needs something"""
        n = self.r.choice([17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 500, 512, 513, 1000, 1025, 2049])
        s = "".join(self.r.choice("abcdefgh ") for _ in range(n))
        i = self.r.choice([0, 1, n // 2, n - 1, n - 1, n - 1, n - 2, n - 3, n - 5, n - 8, n & ~7, n & ~15, self.r.randrange(n), self.r.randrange(n)])
        return s[:i] + self.r.choice("<>&\"'\0") + s[i + 1:]

    def longstring(self):
        n = self.r.choice([60, 130, 260, 520, 600, 1030, 2100, 4200])
        if self.f["nasty"] and self.chance(0.3):
            return self.lone()
        p = self.f["nasty"] * 0.2
        out, l = [], 0
        while l < n:
            w = self.r.choice(NASTY) if self.chance(p) else "".join(self.r.choice("abcdefgh ") for _ in range(self.r.randint(1, 12)))
            out.append(w)
            l += len(w)
        if self.f["nasty"] and self.chance(0.7):
            out.append(self.r.choice(NASTY))
        return "".join(out)

    def manyattrs(self, n):
        out = []
        for i in range(n):
            if self.chance(0.6):
                out.append({"k": "attr", "ctor": "NewAttribute", "n": "n%d" % self.r.randint(0, n), "vs": [S(str(i))]})
            elif self.chance(0.3):
                out.append({"k": "battr", "ctor": "NewBooleanAttribute", "n": "b%d" % self.r.randint(0, n)})
            else:
                out.append({"k": "dattr", "ctor": "NewDelimitedAttribute", "n": "d%d" % self.r.randint(0, 3 + n // 3), "d": " ", "vs": [S(str(i)), KEY(self.pick(KEYS))]})
        return out

    def big(self, kind):
        """programs that are large in one way"""
        r = self.r
        data, cargo = self.data(), self.cargo()
        pre = []
        if kind == "long":
            ks = dict((k, v) for k, v in data)
            ks["k1"] = S(self.longstring())
            data, cargo = [[k, ks[k]] for k in sorted(ks)], S(self.longstring())
            s = self.longstring()
            n = {"k": "el", "ctor": "NewElement", "n": "main", "c": [S(s), {"k": "attr", "ctor": "NewAttribute", "n": "a", "vs": [S(s), KEY("k1")]}, text(KEY("k1")),
                 {"k": "el", "ctor": "NewElement", "n": "p", "c": [text({"t": "cat", "vs": [S(s), KEY(".")]}), {"k": "imp", "id": self.id("m"), "ret": "", "ops": [{"o": "str", "s": s}]}]}]}
        elif kind == "lone":
            ks = dict((k, v) for k, v in data)
            ks["k1"] = S(self.lone())
            data, cargo = [[k, ks[k]] for k in sorted(ks)], S(self.lone())
            n = {"k": "el", "ctor": "NewElement", "n": "main", "c": [S(self.lone()), {"k": "attr", "ctor": "NewAttribute", "n": "a", "vs": [S(self.lone()), KEY("k1")]}, text(KEY("k1")),
                 {"k": "el", "ctor": "NewElement", "n": "p", "c": [text({"t": "cat", "vs": [S(self.lone()), KEY(".")]}), {"k": "imp", "id": self.id("m"), "ret": "", "ops": [{"o": "str", "s": self.lone()}]}]}]}
            if self.chance(0.5):
                ty = self.pick(["string", "string", "any", "map", "named"])
                vs = [S(self.lone()) for _ in range(self.r.randint(1, 3))]
                if ty == "map":
                    vs = [{"t": "map", "m": [["k1", v]]} for v in vs]
                data = sorted([kv for kv in data if kv[0] != "list"] + [["list", {"t": "list", "ty": ty, "vs": vs}]], key=lambda kv: kv[0])
                probe = KEY("k1" if ty == "map" else ".")
                n["c"].append({"k": "iter", "src": {"s": self.pick(["key", "fnkey", "yieldkey"]), "id": self.id("i"), "key": "list", "items": []},
                               "ns": [text(probe), {"k": "comment", "vs": [probe]}, {"k": "el", "ctor": "NewElement", "n": "i", "c": [{"k": "attr", "ctor": "NewAttribute", "n": "t", "vs": [probe]}]}]})
        elif kind == "wide":
            n = {"k": "el", "ctor": "NewElement", "n": "main", "c": sum((self.contents(1, 2) for _ in range(r.choice([70, 140, 270]))), [])}
        elif kind == "deep":
            n = {"k": "el", "ctor": "NewElement", "n": "leaf", "c": self.contents(1, 2)}
            for i in range(r.choice([35, 70, 140, 270])):
                n = self.wrap(n) if self.chance(0.3) else {"k": "el", "ctor": "NewElement", "n": self.pick(EL), "c": [n]}
                if i % 12 == 11:
                    pre.append({"op": "make", "id": "n%d" % i, "n": n})
                    n = {"k": "ref", "id": "n%d" % i}
        elif kind == "attrs":
            m = r.choice([10, 18, 34, 66])
            c = self.manyattrs(m)
            if self.f["condattrs"]:
                for _ in range(r.choice([0, 3, 12])):
                    c.insert(r.randint(0, len(c)), {"k": "cond", "via": "Conditional", "c": self.condition(), "ns": self.manyattrs(r.choice([1, 2, 9]))})
            n = {"k": "el", "ctor": self.pick(["NewElement", "NewVoidElement"]), "n": "main", "c": c}
            if self.chance(0.3):
                n = {"k": "imp", "id": self.id("m"), "ret": "", "ops": [{"o": "start", "n": "main", "void": False, "as": self.manyattrs(m)}, {"o": "end"}]}
            n = {"k": "el", "ctor": "NewElement", "n": "top", "c": [n]}
        elif kind == "items":
            m = r.choice([40, 100, 260])
            items = [self.datum(1) for _ in range(m)]
            if self.chance(0.4):
                m = r.choice([300, 520, 1030, 1100])
                src = {"s": "key", "id": self.id("i"), "key": "list", "items": []}
                ty = self.pick(["int", "string"])
                data = sorted(data + [["list", {"t": "list", "ty": ty, "vs": [{"t": "lit", "ty": "int", "s": str(i)} if ty == "int" else S(str(i)) for i in range(m)]}]], key=lambda kv: kv[0])
                n = {"k": "el", "ctor": "NewElement", "n": "main", "c": [{"k": "iter", "src": src, "ns": [text(KEY("."))]}]}
                return {"u": False, "reuse": False, "ops": pre + [{"op": "make", "id": "root", "n": n}, {"op": "render", "id": "root", "data": data, "cargo": cargo, "times": 1}]}
            src = {"s": self.pick(["fn", "yield", "key"]), "id": self.id("i"), "key": "list", "items": items}
            if src["s"] == "key":
                data = sorted(data + [["list", {"t": "list", "ty": "any", "vs": items}]], key=lambda kv: kv[0])
                src["items"] = []
            n = {"k": "el", "ctor": "NewElement", "n": "main", "c": [{"k": "iter", "src": src, "ns": [text(KEY(".")), {"k": "el", "ctor": "NewElement", "n": "b", "c": [text(KEY("name"))]}]}]}
        elif kind == "values":
            n = {"k": "el", "ctor": "NewElement", "n": "main", "c": [text(*[self.val(1) for _ in range(r.choice([40, 100, 260]))]),
                 {"k": "dattr", "ctor": "NewDelimitedAttribute", "n": "class", "d": " ", "vs": [self.val(1) for _ in range(r.choice([9, 40, 130]))]},
                 {"k": "comment", "vs": [{"t": "cat", "vs": [self.val(0) for _ in range(r.choice([9, 40]))]}]}]}
        else:
            ops, open_ = [], 0
            for _ in range(r.choice([20, 40, 80])):
                x = r.random()
                ops.append({"o": "start", "n": self.pick(EL), "void": False, "as": []} if x < 0.55 else {"o": "end"} if x < 0.75 else {"o": "str", "s": "t"})
            for _ in range(r.choice([0, 5, 30])):
                ops.append({"o": "end"})
            ops.append({"o": "endall"})
            n = {"k": "el", "ctor": "NewElement", "n": "main", "c": [{"k": "imp", "id": self.id("m"), "ret": "", "ops": ops}]}
        return {"u": False, "reuse": bool(self.f["sets"]) or self.chance(0.5), "ops": pre + [{"op": "make", "id": "root", "n": n}, {"op": "render", "id": "root", "data": data, "cargo": cargo, "times": 1}]}

    def render(self, id, times=1):
        return {"op": "render", "id": id, "data": self.data(), "cargo": self.cargo(), "times": times}

    def program(self, depth=4, renders=2, root="el", times=1, width=6):
        n = self.root(depth, width) if root == "el" else self.node(depth)
        ops = [{"op": "make", "id": "root", "n": n}]
        for _ in range(renders):
            ops.append(self.render("root", times))
        return {"u": False, "ops": ops, "reuse": bool(self.f["sets"]) or self.chance(0.5)}

    def history(self, nodes=5, depth=2):
        """declarations that share earlier ones, with renderings in between"""
        refs, ops = [], []
        contexts = [(self.data(), self.cargo()) for _ in range(2)]
        def show(id):
            d, c = self.pick(contexts)
            ops.append({"op": "render", "id": id, "data": d, "cargo": c, "times": 1})
        for i in range(nodes):
            self.f["refs"] = list(refs)
            id = "n%d" % (i + 1)
            if self.chance(0.35):
                n, kind = self.attr(), "attr"
                while n["k"] == "ref":
                    n = self.attr()
            elif self.chance(0.3):
                n, kind = coll(*self.kids(depth, 4, 0.6)), "node"
            elif self.chance(0.3):
                n, kind = {"k": "cond", "via": "Conditional", "c": self.condition(), "ns": self.kids(depth, 4, 0.6)}, "node"
            else:
                n, kind = {"k": "el", "ctor": "NewElement", "n": self.pick(EL), "c": self.contents(depth, 5)}, "node"
            ops.append({"op": "make", "id": id, "n": n})
            refs.append((id, kind))
            for _ in range(self.r.choice([0, 1, 1, 2])):
                show(self.pick(refs)[0])
        for id, _ in refs + refs[:2]:
            show(id)
        self.f["refs"] = []
        return {"u": False, "ops": ops, "reuse": bool(self.f["sets"]) or self.chance(0.5)}
