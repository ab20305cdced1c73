"""One small program for each exported constructor of the packages and each property of template programs: what holds
for the elements and attributes of the root package must hold for all of them."""
import random
from gen import CATALOG, CT_CONST, S, KEY, NIL, NILN, text, coll

from reword import WORDS
LIKELY = WORDS[:WORDS.index("null")]
RARE = WORDS[len(LIKELY):]

import json, os
_ALL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "catalog.json")))


def el(*c, n="p"):
    return {"k": "el", "ctor": "NewElement", "n": n, "c": list(c)}


def when(key, *ns):
    return {"k": "cond", "via": "When", "c": {"c": "nkey", "key": key[1:]} if key[0] == "!" else {"c": "key", "key": key}, "ns": list(ns)}


def at(n, *vs):
    return {"k": "attr", "ctor": "NewAttribute", "n": n, "vs": list(vs)}


def dat(n, d, *vs):
    return {"k": "dattr", "ctor": "NewDelimitedAttribute", "n": n, "d": d, "vs": list(vs)}


def imp(*ops, ret="", id="m"):
    return {"k": "imp", "id": id, "ops": list(ops), "ret": ret}


def lit(ty, s):
    return {"t": "lit", "ty": ty, "s": s}


TRUE, FALSE = {"t": "bool", "b": True}, {"t": "bool", "b": False}
NASTY = "a<b>\"c'&d\0-->"


def subject(f):
    """name -> (is it an element?, make(contents), name of the attribute, delimiter, does it take values?)"""
    kind, n, d = CATALOG[f], _ALL[f]["n"], _ALL[f]["d"]

    def pkg(*c):
        if kind in ("unit", "var", "const"):
            v = {"t": "pkg", "f": f, "nm": "v" if kind == "var" else "", "vs": list(c[:1] or [S("")]) if kind == "var" else [] if kind == "const" else list(c)}
            if kind == "var":
                return {"k": "pkg", "f": "htmx.Vars", "nm": "", "c": [v]}
            return {"k": "pkg", "f": "css.Width", "nm": "", "c": [v]}
        return {"k": "pkg", "f": f, "nm": "nm" if kind in ("prefixed", "pi") else "", "c": [] if kind == "bool" else list(c)}
    if kind in ("unit", "const"):
        return "attr", pkg, "style", "; "
    if kind == "var":
        return "attr", pkg, "hx-vars", ", "
    if kind == "css":
        return "attr", pkg, "style", d
    if kind == "prefixed":
        return "attr", pkg, n + "nm", ""
    if kind in ("attr", "delim", "bool"):
        return "attr", pkg, n, d
    return kind, pkg, n, ""


class Sweep:
    def __init__(self, f):
        self.f = f
        self.kind, self.mk, self.n, self.d = subject(f)
        self.fns = 0
        self.words = []

    def fn(self, mode="count", s=""):
        self.fns += 1
        return {"t": "fn", "id": "f%d" % self.fns, "mode": mode, "s": s, "plain": self.fns % 2 == 0}

    def holder(self, *vs):
        """an element in which the constructor's node has those values (an element: those contents)"""
        x = self.mk(*vs)
        return el(x, text(S("t"))) if self.kind == "attr" else el(text(S("(")), x, text(S(")")))

    def case(self, prop):
        nodes, renders = getattr(self, prop)()
        ops = [{"op": "make", "id": i, "n": n} for i, n in nodes]
        for r in renders:
            i, data, cargo = r if len(r) == 3 else (nodes[-1][0],) + tuple(r)
            ops.append({"op": "render", "id": i, "data": sorted([k, v] for k, v in data.items()), "cargo": cargo})
        return {"u": False, "ops": ops}

    def one(self, root, *renders):
        return [("root", root)], [r if isinstance(r, tuple) else (r, NIL()) for r in renders] or [({}, NIL())]

    def C01(self):
        v = NASTY
        return self.one(self.holder(S(v), KEY("k"), {"t": "strg", "s": v}, KEY("."), {"t": "fany", "v": S("<&")}),
                        ({"k": S(v)}, S("\"'<")), ({"k": {"t": "strg", "s": "'\"&"}}, {"t": "fany", "v": S(v)}))

    def C02(self):
        if self.kind == "attr":
            x = self.mk(S("v"))
            return self.one(el(text(S("a")), coll(text(S("b")), x, el(n="i"), coll(x)), {"k": "comment", "vs": [S("c")]}, x, text(S("d"))))
        x = self.mk(S("s"), el(at("a", S("1")), n="i"), at("b", S("2")), coll(text(S("u")), at("c", S("3"))))
        if self.kind in ("text", "comment", "pi"):
            x = self.mk(S("s"), S("t"))
        return self.one(el(x, text(S("-")), coll(x, el(x, n="b"))))

    def C03(self):
        if self.kind == "attr":
            x, y, z, e = self.mk(S("x")), self.mk(S("y"), S("")), self.mk(S("z"), S("w")), self.mk()
            return [("a", el(x, at("id", S("1")), coll(y, coll(z)))), ("b", el(x, at(self.n, S("plain")), y)), ("c", el(at(self.n, S("plain")), x, e)),
                    ("d", el(dat(self.n, self.d or " ", S("first")), x, y)),
                    ("e", imp({"o": "start", "n": "p", "void": False, "as": [x, at("id", S("1")), y, z]}, {"o": "end"}))], [(i, {}, NIL()) for i in "abcde"]
        if self.kind in ("text", "comment", "pi"):
            return self.one(el(at("a", S("1")), self.mk(S("x")), at("a", S("2")), self.mk(S("y"))))
        return self.one(self.mk(at("a", S("1")), dat("c", " ", S("x")), at("a", S("2")), coll(dat("c", " ", S("y")), {"k": "battr", "ctor": "NewBooleanAttribute", "n": "a"})))

    def C04(self):
        data = [{}, {"k1": TRUE}, {"k1": FALSE}, {"k1": S("x"), "k2": TRUE}]
        if self.kind == "attr":
            return self.one(el(when("k1", self.mk(S("1"))), self.mk(S("u")), when("!k1", coll(self.mk(S("2")), when("k2", self.mk(S("4")))), self.mk(S("3"))), when("k2", self.mk(S("5")))), *data)
        x = self.mk(when("k1", at("a", S("1")), text(S("T")), dat("c", " ", S("x"))), at("a", S("0")), when("!k1", el(n="i"), at("a", S("2"))), coll(when("k1", when("k2", at("b", S("3")), text(S("U"))))))
        if self.kind in ("text", "comment", "pi"):
            x = self.mk(S("s"), KEY("k1"))
        return self.one(el(when("k1", x), text(S("-")), when("!k1", x, when("k2", x))), *data)

    def C05(self):
        if self.kind == "attr":
            root = el(at("z", self.fn("const", "z")), self.mk(self.fn("const", "1"), self.fn("const", "2")), at("a", self.fn("const", "a")),
                      when("k1", at("q", S("1")), self.mk(self.fn("const", "3")), at("b", S("2")), at("a", self.fn("const", "n"))))
        else:
            root = el(self.mk(*([at("z", self.fn("const", "1")), at("y", S("2")), when("k1", at("x", self.fn("const", "3")), at("w", S("4"))), at("v", self.fn("const", "5"))]
                                if self.kind in ("el", "void") else [self.fn("const", "1"), self.fn("const", "2")])))
        n, r = self.one(root, {"k1": TRUE}, {})
        return n, r

    def C06(self):
        if self.kind == "attr":
            return ([("n1", self.mk(S("x"), KEY("k1"))), ("n2", el({"k": "ref", "id": "n1"}, self.mk(S("y")))), ("n3", el({"k": "ref", "id": "n1"}, when("k1", self.mk(S("z"))), text(S("t"))))],
                    [("n2", {}, NIL()), ("n3", {"k1": S("k")}, NIL()), ("n2", {"k1": S("l")}, NIL()), ("n1", {}, NIL()), ("n3", {}, NIL())])
        cs = [S("s"), KEY("k1")] + ([] if self.kind in ("text", "comment", "pi") else [dat("c", " ", S("1")), when("k1", dat("c", " ", S("2")))])
        return ([("n1", self.mk(*cs)), ("n2", el({"k": "ref", "id": "n1"}, {"k": "ref", "id": "n1"})), ("n3", el(coll({"k": "ref", "id": "n1"}), dat("c", " ", S("3"))))],
                [("n1", {"k1": S("k")}, NIL()), ("n2", {}, NIL()), ("n3", {"k1": S("l")}, NIL()), ("n1", {}, NIL()), ("n2", {"k1": S("k")}, NIL())])

    def C09(self):
        fail = imp({"o": "str", "s": "s"}, ret="e1")
        if self.kind == "attr":
            return self.one(el(self.mk(S("x")), coll(text(S("a")), fail), self.mk(S("y")), text(S("z"))))
        if self.kind in ("el", "void"):
            return self.one(el(self.mk(at("a", S("1")), text(S("a")), coll(fail), text(S("b"))), {"k": "comment", "vs": [S("c")]}, imp(ret="e2", id="n")))
        return self.one(el(self.mk(S("s")), fail, self.mk(S("t"))))

    def items(self):
        return [S("s1"), {"t": "map", "m": [["k", S("m1")]]}, lit("int", "7")]

    def C10(self):
        probe = [KEY("."), S(","), KEY("k"), S(","), self.fn("parent")]
        inner = el(self.mk(*probe), text(KEY("k"))) if self.kind == "attr" else self.mk(*probe)
        root = el({"k": "iter", "src": {"s": "key", "id": "i", "key": "l", "items": []}, "ns": [text(S("[")), inner, {"k": "iter", "src": {"s": "fn", "id": "j", "key": "", "items": [S("q")]}, "ns": [inner]}]}, inner)
        return self.one(root, ({"k": S("outer"), "l": {"t": "list", "ty": "any", "vs": self.items()}}, S("cargo")))

    def C11(self):
        x, y = self.mk(S("x")), self.mk(S("y"))
        if self.kind == "attr":
            ops = [{"o": "start", "n": "b", "void": False, "as": [x, at("id", S("1")), y]}, {"o": "start", "n": "br", "void": True, "as": [y, at(self.n, S("z"))]}, {"o": "nodes", "ns": [x, text(S("t")), y]},
                   {"o": "end"}, {"o": "end"}, {"o": "str", "s": "u"}]
        else:
            ops = [{"o": "start", "n": "b", "void": False, "as": [x]}, {"o": "nodes", "ns": [x, y]}, {"o": "end"}, {"o": "nodes", "ns": [x]}, {"o": "start", "n": "i", "void": False, "as": []}, {"o": "endall"}]
        return self.one(el(imp(*ops), imp(*ops, id="n")))

    def C13(self):
        vs = [self.fn(), KEY("k"), {"t": "cat", "vs": [self.fn(), S("+"), KEY(".")]}, self.fn("data", "k")]
        return self.one(el(el(self.mk(*vs), text(self.fn())) if self.kind == "attr" else self.mk(*vs), text(self.fn())),
                        ({"k": S("1")}, S("c")), ({}, NIL()), ({"k": lit("int", "5")}, lit("float64", "1.5")))

    def C14(self):
        vs = [lit("int8", "-128"), TRUE, lit("uint64", "18446744073709551615"), lit("float32", "0.1"), {"t": "strg", "s": "g"}, {"t": "raw", "s": "r"}, NIL(), {"t": "other", "s": "struct"},
              {"t": "fany", "v": {"t": "fany", "v": lit("int64", "-9")}}, KEY("k"), KEY(".")]
        return self.one(self.holder(*vs), ({"k": lit("uint8", "255")}, FALSE), ({"k": {"t": "other", "s": "chan"}}, lit("float64", "100.5")))

    def C16(self):
        nils = [NIL(), S("x"), NIL(), S("y")] if self.kind in ("attr", "text", "comment", "pi") else [NILN(), S("x"), NIL(), at("a", S("1")), NILN(), coll(NILN(), text(S("t")))]
        return self.one(el(NILN(), self.mk(*nils), NILN(), coll(NILN(), self.mk(S("z"))), when("k1", NILN(), self.mk(NIL()))), {"k1": TRUE}, {})

    def C17(self):
        if self.kind != "attr":
            return self.one(self.mk(*([self.S("s")] if self.kind in ("text", "comment", "pi") else [{"k": "pkg", "f": "css.Color", "nm": "", "c": [S("red")]}, {"k": "pkg", "f": "html.Style", "nm": "", "c": [S("a:b")]}])))
        imp_ = {"t": "pkg", "f": "css.Important", "nm": "", "vs": []} if "css.Important" in CATALOG else S(" !important")
        px = {"t": "pkg", "f": "css.Px", "nm": "", "vs": [lit("int", "2")]}
        w = {"k": "pkg", "f": "css.Color", "nm": "", "c": [S("red")]}
        h = {"k": "pkg", "f": "html.Style", "nm": "", "c": [S("a:b"), S(""), S("c:d")]}
        if self.words:
            # words that may be treated in a special way, alone, before and after another value
            return self.one(el(*[x for w in self.words for x in (el(self.mk(S(w))), el(self.mk(S(w), S("z"))), el(self.mk(S("z"), S(w))))]))
        return self.one(el(w, self.mk(px, S(" "), KEY("k")), h, when("k1", self.mk(S("1"), imp_), w), self.mk(S("2"), imp_)), {"k1": TRUE, "k": S("v")}, {})

    def S(self, s):
        return S(s)


    def C08(self):
        return self.one(el(at("a", S("1")), self.holder(S("x<"), self.fn("const", "y"), KEY("k")), text(S("z"))), {"k": S("v")})

    def C12(self):
        x = self.mk(S("x<"), KEY("k"), KEY("."))
        mark = {"s": "mark", "n": "n", "via": ""}
        lit_ = lambda v: {"s": "lit", "v": v}
        if self.kind == "attr":
            segs = [lit_("<p "), mark, lit_(" title='t'>x</p>"), {"s": "range", "key": "l", "a": [lit_("<br "), mark, lit_(">")]}]
        else:
            segs = [lit_("<p>"), mark, lit_("</p>"), {"s": "range", "key": "l", "a": [mark, lit_("-")]}]
        ex = lambda k: {"data": [["k", S(k)], ["l", {"t": "list", "ty": "any", "vs": [S("1"), S("2")]}]], "cargo": S("c&"), "at": -1, "rec": False}
        return {"nodes": [["n", x]], "defs": [["da", []], ["db", []]], "segs": segs, "execs": [ex("1"), ex("<2>")], "reuse": False}


PROPS = ("C08", "C12", "C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C13", "C14", "C16", "C17")


def sweep(prop, count=0, seed=0):
    """all constructors, or that many of them"""
    if prop not in PROPS:
        return []
    out = []
    names = sorted(CATALOG)
    if count:
        names = random.Random("sweep/%s/%s" % (prop, seed)).sample(names, min(count, len(names)))
    for f in names:
        if CATALOG[f] == "bool" and prop in ("C13", "C14", "C01", "C10"):
            continue
        w = Sweep(f)
        out.append({"id": "p" + f, "case": w.C12() if prop == "C12" else w.case(prop)})
        if prop == "C17" and w.kind == "attr" and CATALOG[f] != "bool":
            # the most likely ones for every constructor of lists, some for the others
            many = CATALOG[f] in ("delim", "css", "unit")
            w.words = (LIKELY if many else []) + random.Random("words/%s/%s" % (f, seed)).sample(RARE, 6)
            out.append({"id": "w" + f, "case": w.case(prop)})
    return out
