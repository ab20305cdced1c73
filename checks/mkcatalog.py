#!/usr/bin/env python3
"""Writes spec/catalog.json and harness/catalog.go: the exported constructors of html, svg, htmx and css and the names they
are documented to have.  Run once against the original sources (and checked by hand against the doc comments and the HTML
and SVG standards); the checks use the committed files, never this program."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cat, go = {}, []
for pkg in ("html", "svg", "htmx", "css"):
    src = ""
    for f in sorted(glob.glob("/repo/%s/*.go" % pkg)):
        if not f.endswith("_test.go"):
            src += open(f).read() + "\n"
    consts = dict(re.findall(r'^\s*(?:const )?(\w+)\s*=\s*"([^"]*)"', src, re.M))
    names = {}
    for n, v in re.findall(r'^\s*(\w+)\s*=\s*\[\]byte\(([^)]*)\)', src, re.M):
        names[n] = v.strip('"') if v.startswith('"') else consts[v]
    for n, v in re.findall(r"^\s*(\w+)\s*=\s*\[\]byte\{([^}]*)\}", src, re.M):
        names[n] = "".join(x[1:-1] for x in re.findall(r"'[^']*'", v))
    for n, v in consts.items():
        if n[0].isupper():
            cat["%s.%s" % (pkg, n)] = {"kind": "const", "n": v, "d": ""}
            go.append("%s.%s" % (pkg, n))
    for name, args, body in re.findall(r'^func ([A-Z]\w*)\(([^)]*)\) ?[^{\n]*\{\n(.*?)^\}', src, re.M | re.S):
        b = body.strip()
        key = "%s.%s" % (pkg, name)
        m = re.match(r'return aitch\.(New\w+)\((\w+)((?:, \w+)*?)(?:, (\w+)\.\.\.)?\)$', b)
        if re.match(r'return styleAttribute\((\w+), value\.\.\.\)$', b):
            e = {"kind": "css", "n": names[re.match(r'return styleAttribute\((\w+)', b).group(1)], "d": "; "}
        elif re.match(r'return withUnit\(value, (\w+)\)$', b):
            e = {"kind": "unit", "n": names[re.match(r'return withUnit\(value, (\w+)\)$', b).group(1)], "d": ""}
        elif name in ("Aria", "Data", "On") and "append(" in b:
            e = {"kind": "prefixed", "n": {"Aria": "aria-", "Data": "data-", "On": "hx-on:"}[name], "d": ""}
        elif name in ("Text", "Comment", "PI"):
            e = {"kind": name.lower(), "n": "", "d": ""}
        elif key == "htmx.Var":
            e = {"kind": "var", "n": "", "d": ": "}
        elif m and m.group(1) in ("NewAttribute", "NewElement", "NewVoidElement", "NewBooleanAttribute", "NewDelimitedAttribute"):
            e = {"kind": {"NewAttribute": "attr", "NewElement": "el", "NewVoidElement": "void", "NewBooleanAttribute": "bool", "NewDelimitedAttribute": "delim"}[m.group(1)],
                 "n": names[m.group(2)], "d": names[m.group(3).strip(", ")] if m.group(1) == "NewDelimitedAttribute" else ""}
        else:
            print("special", key)
            continue
        cat[key] = e
        go.append(key)
cat["html.Track"]["kind"] = "void"   # what HTML says; the implementation differs (known finding)
json.dump(cat, open(os.path.join(V, "spec/catalog.json"), "w"), indent=0, sort_keys=True)
with open(os.path.join(V, "harness/catalog.go"), "w") as f:
    f.write('package main\n\nimport (\n\t"github.com/go-andiamo/aitch/css"\n\t"github.com/go-andiamo/aitch/html"\n\t"github.com/go-andiamo/aitch/htmx"\n\t"github.com/go-andiamo/aitch/svg"\n)\n\n')
    f.write("// catalog holds the exported constructors and constants (written by checks/mkcatalog.py)\nvar catalog = map[string]any{\n")
    for k in sorted(go):
        f.write('\t"%s": %s,\n' % (k, k))
    f.write("}\n")
from collections import Counter
print(Counter((k.split(".")[0], v["kind"]) for k, v in cat.items()))
