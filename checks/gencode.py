"""C18: documents -> GenerateCode -> the generated expression evaluated (and some compiled) -> rendered -> read back."""
import random, subprocess
from lib import *
from gen import CATALOG
from shrink import shrink

COUNT = {"quick": 400, "thorough": 5000}
COMPILE = {"quick": 60, "thorough": 600}
VOID = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"]
RAW = ["iframe", "noembed", "noframes", "noscript", "script", "style", "xmp"]
PLAIN = ["title", "textarea"]
PIECES = ["a", "b c", '"', "\\", "<", "&", "'", "`", "%s", "%", "\n", "  ", ">", ";", ")", "{", "\xff", "\xe2\x82\xac", "\x7f", "\x01", "\\n", "\\\"", "&amp;", "&lt", "$", "*/", "//",
          "é".encode().decode("latin-1"), "\t", "--", "]]>", "\\u0041", '")', "',", "\xc2\xa0", "\xc2\xa0", "\xe2\x80\xa8", "\xef\xbb\xbf", "\xf0\x9f\x98\x80", "\x0b", "a\x0c", "\u00e2\u0080\u008b"]
# texts of several lines, lists
LINES = ["a\nb\nc\rd", "one\r\ntwo\r\nthree\n", "\n  a\n  b\n", "\ta\n\tb\r\n", "a\n\n\nb", "x\r", "l1\nl2 `q`\nl3", "{\n \"k\": [1,\n 2]\n}"]
LISTS = ["a\tb\tc", "a  b   c", "a\nb\nc", " a b c ", "a b a b", "a;b;c", "a:1; b:2;", "a:1;;b:url(x;y) ;", "a.png 1x,b.png 2x", "a , b ,c", ",", ";", "; ", "a,", "A a", "\ta", "a\r\nb c"]
ALONE = ["\xc2\xa0", " \xc2\xa0\n", "\xe2\x80\xa8", "\x0b", "\xe3\x80\x80", "\xef\xbb\xbf"]


def catalog_names():
    cat = json.load(open(os.path.join(VERIF, "spec", "catalog.json")))
    els = {k: sorted({v["n"].lower() for f, v in cat.items() if f.startswith(k + ".") and v["kind"] in ("el", "void")}) for k in ("html", "svg")}
    ats = {k: sorted({v["n"].lower() for f, v in cat.items() if f.startswith(k + ".") and v["kind"] in ("attr", "bool", "delim")}) for k in ("html", "svg", "htmx")}
    return els, ats


ELS, ATTRS = catalog_names()


class Docs:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.pkg = self.r.choice(["html", "html", "svg"])

    def string(self, least=0):
        r = self.r
        if r.random() < 0.4:
            return r.choice(["word", "two words", "x", "1"])
        if r.random() < 0.04:
            return r.choice(ALONE)
        if r.random() < 0.08:
            return r.choice(LISTS + LINES)
        if r.random() < 0.01:
            return "".join(r.choice(PIECES + ["text "] * 20) for _ in range(r.choice([100, 500, 1500])))
        if r.random() < 0.1:
            # few pieces, often
            few = [r.choice(PIECES) for _ in range(r.choice([1, 2, 2, 3]))]
            return "".join(r.choice(few) for _ in range(r.choice([5, 10, 10, 20, 40])))
        return "".join(r.choice(PIECES) for _ in range(r.randint(least, 8)))

    def name(self, attr=False):
        r = self.r
        x = r.random()
        if x < 0.15:
            n = "".join([r.choice("abcxyz")] + [r.choice("abcxyz019-_.:") for _ in range(r.randint(0, 6))])
            if r.random() < 0.4:
                odd = "@#$%&*()[]{}_+|:;'`,.?~^\\\"<-!"
                n = ("" if attr else r.choice("abx")) + "".join(r.choice(list(odd + "abcxyz") + ["\u00c3\u00a9", "\u00e9"]) for _ in range(r.randint(1, 5)))
            return n
        if attr:
            return r.choice(ATTRS[r.choice([self.pkg, self.pkg, "htmx"])])
        return r.choice(ELS[self.pkg if r.random() < 0.8 else r.choice(["html", "svg"])])

    def style(self):
        return self.r.choice(["", "", "num", "hex", "single", "raw", "ent", "ent"])

    def attrs(self):
        out, seen = [], set()
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3, 5] * 8 + [25])):
            n = self.name(True)
            if n not in seen:
                seen.add(n)
                nov = self.r.random() < 0.2
                out.append({"n": n, "v": "" if nov else self.string(), "nov": nov})
        return out

    def text(self, out):
        if out and out[-1]["e"] == "text":
            return
        s = self.string(1)
        out.append({"e": "text", "s": s, "style": self.style()})

    def element(self, d, out):
        r = self.r
        n = self.name()
        while n == "plaintext":
            n = self.name()
        void = self.pkg == "html" and n in VOID
        if self.pkg == "svg" and n in VOID:
            n = "g"
        st = {"e": "start", "n": n, "as": self.attrs(), "sl": False, "up": r.random() < 0.1, "style": self.style(), "raw": n in RAW}
        out.append(st)
        if void:
            st["sl"] = r.random() < 0.5
            return
        if r.random() < (0.3 if self.pkg == "svg" else 0.1):
            st["sl"], st["raw"] = True, False
            return
        if n in RAW + PLAIN:
            if r.random() < 0.8:
                s = self.string(1)
                if n in RAW:
                    s = s.replace("\r", "").replace("</", "< /").replace("<!", "< !").replace("--", "- -")
                    if s.endswith("<"):
                        s += " "
                out.append({"e": "text", "s": s, "style": self.style() if n in PLAIN else ""})
        else:
            self.nodes(d - 1, out)
        out.append({"e": "end", "n": n, "up": r.random() < 0.1})

    def nodes(self, d, out):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            x = r.random()
            if x < 0.5 and d > 0:
                self.element(d, out)
            elif x < 0.85:
                self.text(out)
            else:
                s = self.string().replace("-", "=").replace("\r", "").strip()
                k = self.r.random()
                if k < 0.6:
                    if self.r.random() < 0.3:
                        s = self.r.choice(["[if IE]>", "[if lt IE 9]><p>x</p><![endif]", "[endif]", " ", "\n", "", "TODO: ", "/*", "//"]) + s + self.r.choice([" ", "\n", " \t ", "<![endif]", "", "!", "/"])
                    out.append({"e": "comment", "s": s})
                elif k < 0.75:
                    out.append({"e": "comment", "s": "?" + s, "style": "pi"})
                elif k < 0.9:
                    out.append({"e": "comment", "s": self.r.choice(["[CDATA[", "ELEMENT ", "ENTITY", "["]) + s, "style": "bang"})
                else:
                    out.append({"e": "comment", "s": self.r.choice([" ", "1", "["]) + s, "style": "slash"})

    def long(self, out, where=None, pieces=1200):
        """one text, value or comment longer than a buffer"""
        s = "".join(self.r.choice(PIECES + ["some text "] * 30) for _ in range(pieces))
        where = where or self.r.choice(["value", "text"])
        if where == "comment":
            out.append({"e": "comment", "s": s.replace("-", "=").strip()})
            return
        out.append({"e": "start", "n": "p", "as": [{"n": "title", "v": s, "nov": False}] if where == "value" else [], "sl": False, "up": False, "style": self.style(), "raw": False})
        if where == "text":
            out.append({"e": "text", "s": s, "style": self.style()})
        out.append({"e": "end", "n": "p", "up": False})

    def case(self):
        r = self.r
        out = []
        if r.random() < 0.2:
            out.append({"e": "doctype", "s": r.choice(["html", "HTML", 'html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"', "svg", "html SYSTEM 'a&b'"]), "up": r.random() < 0.3})
        if r.random() < 0.1:
            # deep
            n = r.choice([r.randint(8, 40), r.randint(8, 40), 60, 70, 130, 300])
            names = [r.choice(["div", "g", "section", "a", "x-y"]) for _ in range(n)]
            for nm in names:
                out.append({"e": "start", "n": nm, "as": self.attrs() if r.random() < 0.2 else [], "sl": False, "up": False, "style": "", "raw": False})
            self.nodes(2, out)
            for nm in reversed(names):
                out.append({"e": "end", "n": nm, "up": False})
        else:
            if r.random() < 0.01:
                self.long(out)
            for _ in range(60 if r.random() < 0.02 else r.randint(1, 3)):
                self.element(r.choice([1, 2, 3, 4, 5]), out)
        return {"pkg": self.pkg, "step": r.choice([11, 23, 37]), "doc": out}


def sound(case):
    """texts are apart, and raw text is in its element"""
    stack = []
    for i, e in enumerate(case["doc"]):
        if e["e"] == "start" and not e["sl"] and not (case["pkg"] == "html" and e["n"] in VOID):
            stack.append(e["n"])
        elif e["e"] == "end" and not (case["pkg"] == "html" and e["n"] in VOID):
            if not stack or stack.pop() != e["n"]:
                return False
        elif e["e"] == "text" and i and case["doc"][i - 1]["e"] == "text":
            return False
    return not stack


def compiled(ck, cases, broken=()):
    """the generated code of each case compiled and run by the Go toolchain"""
    files = ck.observe("gofiles", cases)
    d = ck.path("compiled%d" % ck.nrun)
    os.makedirs(d)
    ck.build()
    src = ck.source()
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(src, f), d)
    with open(os.path.join(d, "main.go"), "w") as f:
        f.write("""package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

var docs = map[string]func() aitch.Node{}

func show(n func() aitch.Node) (out, p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint("panic: ", r)
		}
	}()
	var b bytes.Buffer
	if err := n().Render(context.New(&b, nil, nil)); err != nil {
		p = "error: " + err.Error()
	}
	r := []rune{}
	for _, c := range b.Bytes() {
		r = append(r, rune(c))
	}
	return string(r), p
}

func main() {
	res := map[string][2]string{}
	for id, n := range docs {
		o, p := show(n)
		res[id] = [2]string{o, p}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
""")
    ids = {}
    for j, t in enumerate(files):
        if t["tr"].get("go"):
            ids["d%d.go" % j] = t["id"]
            with open(os.path.join(d, "d%d.go" % j), "wb") as f:
                f.write(("package main\n\nimport (\n\t\"github.com/go-andiamo/aitch\"\n\t\"github.com/go-andiamo/aitch/html\"\n\t\"github.com/go-andiamo/aitch/svg\"\n"
                         "\t\"github.com/go-andiamo/aitch/htmx\"\n\t\"github.com/go-andiamo/aitch/css\"\n)\n\n"
                         "var _, _, _, _ = html.Div, svg.G, htmx.Get, css.Color\n\nfunc init() {\n\tdocs[%s] = func() aitch.Node { return " % json.dumps(t["id"])).encode()
                        + t["tr"]["go"].encode("latin-1") + b" }\n}\n")
    bad = {}
    for _ in range(4):
        p = subprocess.run(["go", "build", "-gcflags=-e", "-o", "docs", "."], cwd=d, env=ck.env, capture_output=True, text=True, timeout=600)
        if p.returncode == 0:
            break
        wrong = set(re.findall(r"^(?:\./)?(d\d+\.go):", p.stderr + p.stdout, re.M))
        if not wrong:
            raise CheckError("generated code: " + p.stderr[-1000:])
        for w in wrong:
            bad[ids[w]] = "does not compile: " + "".join(l for l in (p.stderr + p.stdout).splitlines(True) if w in l)[:300]
            os.unlink(os.path.join(d, w))
    else:
        raise CheckError("generated code still does not compile")
    p = subprocess.run([os.path.join(d, "docs")], env=ck.env, capture_output=True, text=True, timeout=120)
    if p.returncode != 0:
        raise CheckError("compiled documents: " + p.stderr[-1000:])
    res = json.loads(p.stdout)
    out = []
    for c in cases:
        o = {"bad": bad.get(c["id"], ""), "panic": "", "out": ""}
        if c["id"] in res:
            o["out"], o["panic"] = res[c["id"]]
        out.append({"id": c["id"] + "c", "case": dict(c["case"], compiled=o)})
    shutil.rmtree(d, ignore_errors=True)
    return out


def decide(ck, cases, count=True):
    """observations of the cases and those rejected; code the evaluator cannot do is compiled"""
    traces = ck.observe("gencode", cases)
    un = {t["id"] for t in traces if t["tr"].get("bad", "").startswith("unsupported: ")}
    if un:
        # another way of writing the code: compile it (a sample, if there is much)
        left = [c for c in cases if c["id"] in un][:1500]
        again = ck.observe("gencode", compiled(ck, left))
        traces = [t for t in traces if t["id"] not in un] + again
        ck.extra["compiled_instead"] = len(left)
    rej = {}
    for a in range(0, len(traces), 4000):
        rej.update(ck.validate("Gen", traces[a:a + 4000], count=count))
    return traces, rej


def check(ck, replay=None):
    if replay:
        case = dict(replay["case"])
        was = case["case"].pop("compiled", None) if "compiled" in case["case"] else None
        traces, rej = decide(ck, [case])
        if not rej and was is not None:
            traces = ck.observe("gencode", compiled(ck, [case]))
            rej = ck.validate("Gen", traces)
        for i, why in rej.items():
            ck.violation("gencode", case, why["why"], observed=traces[0]["tr"], module="Gen")
        return
    uni = ck.universe()
    rnd = [{"id": "r%d" % j, "case": Docs("C18/%d/%d" % (SEED, j)).case()} for j in range(COUNT[TIER])]
    for j, (pkg, where, pieces) in enumerate([(p, w, m) for p in ("html", "svg") for w in ("value", "text", "comment") for m in (1200, 9000)]):
        d, out = Docs("C18/%d/long%d" % (SEED, j)), []
        d.pkg = pkg
        d.long(out, where, pieces)
        d.element(2, out)
        rnd.append({"id": "l%d" % j, "case": {"pkg": d.pkg, "step": 997, "doc": out}})
    assert all(sound(c["case"]) for c in rnd)
    cases = uni + rnd
    traces, rej = decide(ck, cases)
    pick = random.Random(SEED)
    some = pick.sample(uni, COMPILE[TIER] // 2) + pick.sample(rnd, COMPILE[TIER] // 2)
    comp = ck.observe("gencode", compiled(ck, some))
    rej.update(ck.validate("Gen", comp))
    traces += comp
    ck.samples = [uni[0], rnd[0], {k: traces[0]["tr"].get(k) for k in ("code", "toks", "faults")}]
    ck.extra.update(exhaustive_universe=len(uni), random_documents=len(rnd), compiled_documents=len(some), rejected=len(rej),
                    faults=sum(f["n"] for t in traces for f in t["tr"].get("faults", [])))
    ck.assumptions = ["markup is tokenized by golang.org/x/net/html, when it is read back too",
                      "generated code is evaluated on its syntax tree by the harness; a sample is compiled and run",
                      "raw text contains no end tag or comment of its own; attributes of one start tag have different names"]
    if rej:
        report(ck, traces, rej)


def report(ck, traces, rej):
    byid = {t["id"]: t for t in traces}
    bad = sorted((byid[i] for i in rej), key=lambda t: len(json.dumps(t["case"])))[:4]
    n = 0
    for t in bad:
        case = {"id": t["id"], "case": {k: v for k, v in t["case"].items() if k != "compiled"}}
        tr, again = decide(ck, [case], count=False)
        if not again and "compiled" in t["case"]:
            tr = ck.observe("gencode", compiled(ck, [case]))
            again = ck.validate("Gen", tr, count=False)
        if again:
            n += 1
            ck.violation("gencode", case, list(again.values())[0]["why"], observed=tr[0]["tr"], module="Gen")
    if not n:
        raise CheckError("rejected but not reproduced: %s" % sorted(rej)[:5])
