"""Programs of a universe with other words: element names, attribute names and texts are replaced, the same by the same, by
words that occur in real documents (and may be treated in a special way somewhere)."""
import copy, json, random

ELEMENTS = ["p", "li", "ul", "ol", "div", "span", "a", "b", "i", "td", "tr", "th", "table", "form", "option", "select", "button", "label", "body", "head",
            "html", "main", "dd", "dt", "rp", "pre", "code", "g", "svg", "path", "x-y", "H1", "h6", "img", "br", "input", "col", "keygen", "menuitem", "slot", "video",
            "iframe", "object", "nav", "DIV", "text", "ns:x", "x.y", "x_1"]
ATTRIBUTES = ["id", "class", "style", "href", "src", "name", "value", "type", "title", "hidden", "checked", "disabled", "selected", "data-x", "data-y", "aria-label", "role",
              "onclick", "hx-get", "hx-trigger", "hx-vals", "hx-headers", "for", "lang", "xml:lang", "xlink:href", "rel", "width", "d", "ID", "Class", "is", "async", "open",
              "on:click", "_x" , "x.y", "key", "srcset", "sizes", "viewBox"]
WORDS = ["*", "none", "all", "inherit", "this", "unset", "initial", "0", "1", "-1", "true", "false", "null", "nil", "undefined", "NaN", "auto", "a b", " ", "  ", "\t", "\n", "\xef\xbb\xbf",
         "\xef\xbb\xbfx", "https://x.y/z?a=b", "#", "#a", ".", "..", "!", "@", "$", "-", "_", ";", ":", ",", "/", "\\", "{{.}}", "{}", "[]", "()", "!important", " !important", "px", "UPPER", "Title",
         "javascript:", "data:", "nbsp", "x" * 70, "\xc2\xa0", "\xe2\x80\xa8", "a;", ";a", "a:", "a=b", "%", "%s", "%d", "${x}", "\\n", "0px", "on", "off", "yes", "no"]
RAWS = [x for x in WORDS if "&" not in x]


class Words:
    def __init__(self, r, names):
        self.r, self.maps, self.names = r, {}, names

    def of(self, kind, s, pool, injective):
        m = self.maps.setdefault(kind, {})
        if s not in m:
            if self.r.random() < 0.4:
                # a common one
                pool = pool[:8]
            free = [w for w in pool if w not in m.values()] if injective else pool
            m[s] = self.r.choice(free) if free and self.r.random() < 0.9 else s
        return m[s]


def plain(s):
    return s != "" and len(s) <= 40 and all(" " <= c <= "~" for c in s)


def walk(x, w):
    if isinstance(x, list):
        for y in x:
            walk(y, w)
    elif isinstance(x, dict):
        k = x.get("k")
        if w.names:
            if (k == "el" and x.get("ctor") in ("NewElement", "NewVoidElement", "Element", "VoidElement")) or x.get("o") == "start":
                if plain(x["n"]):
                    x["n"] = w.of("el", x["n"], ELEMENTS, True)
            elif k in ("attr", "battr", "dattr") and x.get("ctor", "").startswith("New") and plain(x["n"]):
                x["n"] = w.of("at", x["n"], ATTRIBUTES, True)
        if (x.get("t") == "str" or x.get("o") == "str") and plain(x.get("s", "")):
            x["s"] = w.of("s", x["s"], WORDS, False)
        elif (x.get("t") == "raw" or (x.get("t") == "fn" and x.get("mode") == "const")) and plain(x.get("s", "")) and not set(x["s"]) & set("<>&\"'"):
            x["s"] = w.of("raw", x["s"], RAWS, False)
        for y in x.values():
            walk(y, w)


def reword(cases, count, salt, names=True):
    r = random.Random("reword/" + salt)
    # the text around floats is needed as it is
    cases = [c for c in cases if '"float' not in json.dumps(c["case"])]
    out = []
    for j in range(count):
        c = copy.deepcopy(r.choice(cases)["case"])
        c["u"] = False
        walk(c, Words(r, names))
        out.append({"id": "v%d" % j, "case": c})
    return out
