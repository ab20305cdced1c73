-------------------------------- MODULE Aitch -------------------------------
(* The rendering semantics of aitch: what a declared template means          *)
(* (Declare), and a small-step machine that renders it (Start, Step, Done).  *)
(*                                                                           *)
(* A template is written down as a syntax tree (a record with field k for    *)
(* nodes, t for values); the same trees are built with the real constructors *)
(* by the conformance harness.                                               *)
EXTENDS Integers, Strs, FiniteSets

VoidNames == {"area","base","br","col","embed","hr","img","input","link","meta","param","source","track","wbr"}

\* exported constructors of html, svg, htmx and css: what each is and its name
Catalog0 == JsonDeserialize("catalog.json")
\* KNOWN=track: html.Track as it is, not as it should be (known-findings.txt)
Catalog == IF "KNOWN" \in DOMAIN IOEnv /\ IOEnv.KNOWN = "track" THEN [Catalog0 EXCEPT !["html.Track"].kind = "el"] ELSE Catalog0

(***************************************************************************)
(* Contexts and data values                                                 *)
(*   cx = [data |-> <<<<key, value>>, ...>> (sorted), cargo |-> value,       *)
(*         parent |-> << >> or <<cx>>]                                      *)
(***************************************************************************)
NilV == [t |-> "nil"]
HasKey(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Lookup(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]

(* the text of a value: what valueToBytes gives, read back *)
RECURSIVE BytesOf(_)
BytesOf(v) ==
  CASE v.t \in {"str", "strg"} -> StripNul(v.s)
    [] v.t \in {"raw", "lit"}  -> v.s
    [] v.t = "bool" -> IF v.b THEN "true" ELSE "false"
    [] v.t = "fany" -> BytesOf(v.v)
    [] OTHER -> ""

(* a one-line description of a value / a context, as a callback sees it *)
RECURSIVE DigV(_), DigM(_), DigCtx(_)
DigV(v) ==
  CASE v.t = "str" -> "s:" \o v.s
    [] v.t = "strg" -> "g:" \o v.s
    [] v.t = "raw" -> "r:" \o v.s
    [] v.t = "lit" -> v.ty \o ":" \o v.s
    [] v.t = "bool" -> IF v.b THEN "true" ELSE "false"
    [] v.t = "nil" -> "nil"
    [] v.t = "map" -> DigM(v.m)
    [] v.t = "list" -> "[" \o Join([i \in 1..Len(v.vs) |-> DigV(v.vs[i])], ",") \o "]"
    [] OTHER -> "o"
DigM(m) == "{" \o Join([i \in 1..Len(m) |-> m[i][1] \o "=" \o DigV(m[i][2])], ",") \o "}"
DigCtx(cx) == "c=" \o DigV(cx.cargo) \o ";d=" \o DigM(cx.data)
              \o (IF cx.parent = <<>> THEN "" ELSE ";p(" \o DigCtx(cx.parent[1]) \o ")")

(***************************************************************************)
(* Declaring.  Constructors turn the given tree into the declared one:       *)
(* names are checked, values flattened, attributes separated from contents   *)
(* and combined.  heap: name -> declared node, for nodes used several times. *)
(*                                                                           *)
(* declared nodes, all with field k:                                         *)
(*   el(void, n, as, cas, cs) text/comment/frag(vs) pi(n, vs)                *)
(*   attr(n, kd, d, vs) coll/doc(cs) cond(c, cs) iter(src, cs) cc(id, cs)    *)
(*   imp(id, ops, ret) nil                                                   *)
(***************************************************************************)
NilN == [k |-> "nil"]
NotNil(s) == SelectSeq(s, LAMBDA n : n.k # "nil")
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
FlattenSeq2(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* values of a declared node used as a value *)
RECURSIVE NodeVals(_)
NodeVals(n) ==
  CASE n.k \in {"text", "comment", "pi", "frag"} -> IF n.k = "pi" THEN n.vs ELSE n.vs
    [] n.k = "attr" -> IF n.kd \in {"bool", "custom"} THEN <<>> ELSE n.vs
    [] n.k = "coll" -> FlattenSeq2(Map(NodeVals, n.cs))
    [] OTHER -> <<>>

Layer(attrs, cs) == [st |-> attrs, cd |-> cs]

(* the attributes of a list of declared contents, at any depth of            *)
(* collections and conditionals, with the conditions that apply to them      *)
RECURSIVE Collect(_, _)
Collect(conds, cs) ==
  FoldLeft(LAMBDA acc, n :
      CASE n.k = "attr" /\ conds = <<>> -> [acc EXCEPT !.st = Append(@, n)]
        [] n.k = "attr" /\ conds # <<>> -> [acc EXCEPT !.cd = Append(@, [at |-> n, cs |-> conds])]
        [] n.k = "coll" -> LET r == Collect(conds, n.cs) IN [st |-> acc.st \o r.st, cd |-> acc.cd \o r.cd]
        [] n.k = "cond" -> LET r == Collect(Append(conds, n.c), n.cs) IN [acc EXCEPT !.cd = @ \o r.cd]
        [] OTHER -> acc,
    [st |-> <<>>, cd |-> <<>>], cs)

IndexOf(as, nm) == CHOOSE i \in 1..Len(as) : as[i].n = nm
HasAttr(as, nm) == \E i \in 1..Len(as) : as[i].n = nm

(* combining attributes given several times: delimited ones collect their    *)
(* values, otherwise the last one replaces what came before                  *)
MergeInto(as, a) ==
  IF ~HasAttr(as, a.n) THEN Append(as, a)
  ELSE LET i == IndexOf(as, a.n) IN
       IF as[i].kd = "delim" /\ a.kd = "delim" THEN [as EXCEPT ![i].vs = @ \o a.vs]
       ELSE [as EXCEPT ![i] = a]
MergeAttrs(attrs) == FoldLeft(MergeInto, <<>>, attrs)

MkEl(void, nm, cs) ==
  LET l == Collect(<<>>, NotNil(cs)) IN
  [k |-> "el", void |-> void, n |-> nm, as |-> MergeAttrs(l.st), cas |-> l.cd,
   cs |-> IF void THEN <<>> ELSE SelectSeq(NotNil(cs), LAMBDA n : n.k # "attr")]

MkAttr(kd, nm, d, vs) == [k |-> "attr", n |-> nm, kd |-> kd, d |-> d, vs |-> vs]

Checked(nm, n) == IF ValidName(nm) THEN n ELSE NilN

\* header maps: later ones override, keys in order
StrLess(a, b) ==
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {j \in 1..m : Ch(a, j) # Ch(b, j)}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET j == CHOOSE j \in D : \A x \in D : j <= x IN Ord(Ch(a, j)) < Ord(Ch(b, j))
\* data with key k set to v (data are in the order of their keys)
PutKey(m, k, v) ==
  IF HasKey(m, k) THEN [x \in 1..Len(m) |-> IF m[x][1] = k THEN <<k, v>> ELSE m[x]]
  ELSE LET lt == SelectSeq(m, LAMBDA kv : StrLess(kv[1], k)) IN lt \o << <<k, v>> >> \o SubSeq(m, Len(lt) + 1, Len(m))
HeaderMap(maps) == FoldLeft(LAMBDA h, m : FoldLeft(LAMBDA g, kv : (kv[1] :> kv[2]) @@ g, h, m), [x \in {} |-> NilV], maps)
MixedHeaders(n) == ~n.js /\ (\E i \in 1..Len(n.vs) : n.vs[i].t = "hmap") /\ (\E i \in 1..Len(n.vs) : n.vs[i].t # "hmap")
TextVal(s) == [t |-> "text", s |-> s]
\* collectors and iteration functions may put an error into the context they are given
ErrOf(n) == IF "err" \in DOMAIN n THEN n.err ELSE ""
\* what a yielding callback writes before every item and at the end, and after how many items it reports its error
Between(src) == IF src.s \in {"yield", "yieldkey"} /\ "bt" \in DOMAIN src THEN src.bt ELSE ""
ErrAfter(src) == IF src.s \in {"yield", "yieldkey"} /\ "ek" \in DOMAIN src THEN src.ek ELSE 0

RECURSIVE Declare(_, _), Vals(_, _), AllVals(_, _), Kids(_, _), OpsOf(_, _), Pkg(_, _), Headers(_, _)

(* a list of nodes *)
Kids(heap, ns) == Map(LAMBDA n : Declare(heap, n), ns)

(* a literal value becomes a sequence of text / key / fn / cat *)
Vals(heap, v) ==
  CASE v.t = "nil" -> <<>>
    [] v.t \in {"key", "fn"} -> <<v>>
    [] v.t = "cat" -> << [t |-> "cat", vs |-> AllVals(heap, v.vs)] >>
    [] v.t = "val" -> LET f == Vals(heap, v.v) IN
                      IF Len(f) = 1 THEN f ELSE << [t |-> "cat", vs |-> f] >>
    [] v.t = "node" -> NodeVals(Declare(heap, v.n))
    [] v.t = "nbsp" -> << [t |-> "text", s |-> Cat([i \in 1..v.count |-> "&nbsp;"])] >>
    [] v.t = "pkg" -> LET e == Catalog[v.f] IN
                      (CASE e.kind = "unit" -> << [t |-> "cat", vs |-> Append(AllVals(heap, v.vs), TextVal(e.n))] >>
                         [] e.kind = "var" -> << [t |-> "cat", vs |-> <<TextVal(StripNul(v.nm)), TextVal(e.d)>> \o AllVals(heap, v.vs)] >>
                         [] e.kind = "const" -> <<TextVal(e.n)>>)
    [] OTHER -> << [t |-> "text", s |-> BytesOf(v)] >>
AllVals(heap, vs) == FlattenSeq2(Map(LAMBDA v : Vals(heap, v), vs))

(* contents of an element: nodes, or values that become text *)
Content(heap, c) == IF "k" \in DOMAIN c THEN Declare(heap, c)
                    ELSE IF c.t = "node" THEN Declare(heap, c.n)
                    ELSE [k |-> "text", vs |-> Vals(heap, c)]

OpsOf(heap, ops) ==
  Map(LAMBDA o : CASE o.o = "start" -> [o EXCEPT !.as = MergeAttrs(SelectSeq(Kids(heap, o.as), LAMBDA n : n.k = "attr"))]
                   [] o.o = "nodes" -> [o EXCEPT !.ns = SelectSeq(Kids(heap, o.ns), LAMBDA n : n.k \notin {"nil", "attr"})]
                   [] OTHER -> o,
      ops)

Headers(heap, n) ==
  LET pre == IF n.js THEN <<TextVal("js:")>> ELSE <<>>
      h == HeaderMap(Map(LAMBDA v : v.m, n.vs))
      ks == SetToSortSeq(DOMAIN h, StrLess)
      entry(i) == <<TextVal((IF i = 1 THEN "" ELSE ", ") \o "'" \o StripNul(ks[i]) \o "': ")>> \o Vals(heap, h[ks[i]])
      maps == IF n.js THEN TRUE ELSE \E i \in 1..Len(n.vs) : n.vs[i].t = "hmap"
  IN IF ~maps THEN AllVals(heap, n.vs)
     ELSE << [t |-> "cat", vs |-> pre \o <<TextVal("{")>> \o FlattenSeq2([i \in 1..Len(ks) |-> entry(i)]) \o <<TextVal("}")>>] >>

Pkg(heap, n) ==
  LET e == Catalog[n.f]
      vs == AllVals(heap, n.c)
  IN CASE e.kind = "el" -> MkEl(FALSE, e.n, Map(LAMBDA c : Content(heap, c), n.c))
       [] e.kind = "void" -> MkEl(TRUE, e.n, Map(LAMBDA c : Content(heap, c), n.c))
       [] e.kind = "attr" -> MkAttr("plain", e.n, "", vs)
       [] e.kind = "bool" -> MkAttr("bool", e.n, "", <<>>)
       [] e.kind = "delim" -> MkAttr("delim", e.n, e.d, vs)
       [] e.kind = "css" -> MkAttr("delim", "style", e.d, << [t |-> "cat", vs |-> <<TextVal(e.n)>> \o vs] >>)
       [] e.kind = "prefixed" -> MkAttr("plain", e.n \o n.nm, "", vs)
       [] e.kind \in {"text", "comment"} -> [k |-> e.kind, vs |-> vs]
       [] e.kind = "pi" -> [k |-> "pi", n |-> n.nm, vs |-> vs]

Declare(heap, n) ==
  CASE n.k = "nil" -> NilN
    [] n.k = "pkg" -> Pkg(heap, n)
    [] n.k = "hdr" -> IF MixedHeaders(n) THEN NilN ELSE MkAttr("plain", "hx-headers", "", Headers(heap, n))
    [] n.k = "doctype" -> [k |-> "pi", n |-> "DOCTYPE", vs |-> <<TextVal("html")>>]
    [] n.k = "ref" -> heap[n.id]
    [] n.k = "el" ->
         LET cs == Map(LAMBDA c : Content(heap, c), n.c) IN
         (CASE n.ctor = "Element"        -> Checked(n.n, MkEl(n.n \in VoidNames, n.n, cs))
            [] n.ctor = "VoidElement"    -> Checked(n.n, MkEl(TRUE, n.n, cs))
            [] n.ctor = "NewVoidElement" -> MkEl(TRUE, n.n, cs)
            [] n.ctor = "NewElement"     -> MkEl(FALSE, n.n, cs))
    [] n.k = "attr" -> IF n.ctor = "Attribute" THEN Checked(n.n, MkAttr("plain", n.n, "", AllVals(heap, n.vs)))
                       ELSE MkAttr("plain", n.n, "", AllVals(heap, n.vs))
    [] n.k = "battr" -> IF n.ctor = "BooleanAttribute" THEN Checked(n.n, MkAttr("bool", n.n, "", <<>>))
                        ELSE MkAttr("bool", n.n, "", <<>>)
    [] n.k = "dattr" -> IF n.ctor = "DelimitedAttribute" THEN Checked(n.n, MkAttr("delim", n.n, n.d, AllVals(heap, n.vs)))
                        ELSE MkAttr("delim", n.n, n.d, AllVals(heap, n.vs))
    [] n.k \in {"text", "comment", "frag"} -> [k |-> n.k, vs |-> AllVals(heap, n.vs)]
    [] n.k = "pi" -> [k |-> "pi", n |-> n.n, vs |-> AllVals(heap, n.vs)]
    [] n.k = "coll" -> [k |-> "coll", cs |-> NotNil(Kids(heap, n.ns))]
    [] n.k = "cond" -> IF n.c.c = "nilfn" THEN [k |-> "coll", cs |-> NotNil(Kids(heap, n.ns))]
                       ELSE [k |-> "cond", c |-> n.c, cs |-> NotNil(Kids(heap, n.ns))]
    [] n.k = "iter" -> [k |-> "iter", src |-> n.src,
                        cs |-> SelectSeq(NotNil(Kids(heap, n.ns)), LAMBDA m : m.k # "attr")]
    [] n.k = "cc" -> IF n.id = "nil" THEN [k |-> "coll", cs |-> <<>>]
                     ELSE [k |-> "cc", id |-> n.id, err |-> ErrOf(n), cs |-> NotNil(Kids(heap, n.ns))]
    [] n.k = "imp" -> IF n.id = "nil" THEN [k |-> "coll", cs |-> <<>>]
                      ELSE [k |-> "imp", id |-> n.id, ops |-> OpsOf(heap, n.ops), ret |-> n.ret, rk |-> IF "rk" \in DOMAIN n THEN n.rk ELSE <<>>]
    \* nodes of the user's own: an element of that name around the nodes given, and an attribute
    [] n.k = "custom" -> [k |-> "custom", n |-> n.n, ret |-> n.ret, cs |-> SelectSeq(Kids(heap, n.ns), LAMBDA m : m.k \notin {"nil", "attr"})]
    [] n.k = "cattr" -> MkAttr("custom", n.n, "", <<TextVal(StripNul(n.s))>>)
    [] n.k = "doc" -> \* DOCTYPE, then <html lang><head>...</head><body>...</body></html>
         LET lang == IF n.lang.t = "nil" THEN <<>> ELSE <<MkAttr("plain", "lang", "", Vals(heap, n.lang))>>
             head == IF n.head = <<>> THEN <<>>
                     ELSE <<MkEl(FALSE, "head", Map(LAMBDA c : Content(heap, c), n.head))>>
             body == <<MkEl(FALSE, "body", Map(LAMBDA c : Content(heap, c), n.body))>>
         IN [k |-> "doc", cs |-> << [k |-> "pi", n |-> "DOCTYPE", vs |-> <<[t |-> "text", s |-> "html"]>>],
                                    MkEl(FALSE, "html", lang \o head \o body) >>]

(* is there an invalid name that a checking constructor would be given? *)
RECURSIVE BadName(_)
BadName(n) ==
  LET AnyIn(s) == \E x \in 1..Len(s) : BadName(s[x]) IN
  IF "k" \notin DOMAIN n
  THEN CASE n.t = "cat" -> AnyIn(n.vs) [] n.t \in {"val", "fany"} -> BadName(n.v) [] n.t = "node" -> BadName(n.n) [] OTHER -> FALSE
  ELSE CASE n.k \in {"nil", "ref"} -> FALSE
         [] n.k = "el" -> (n.ctor \in {"Element", "VoidElement"} /\ ~ValidName(n.n)) \/ AnyIn(n.c)
         [] n.k = "battr" -> n.ctor = "BooleanAttribute" /\ ~ValidName(n.n)
         [] n.k \in {"attr", "dattr"} -> (n.ctor \in {"Attribute", "DelimitedAttribute"} /\ ~ValidName(n.n)) \/ AnyIn(n.vs)
         [] n.k \in {"text", "comment", "frag", "pi"} -> AnyIn(n.vs)
         [] n.k \in {"coll", "cond", "iter", "cc", "custom"} -> AnyIn(n.ns)
         [] n.k = "imp" -> \E x \in 1..Len(n.ops) : CASE n.ops[x].o = "start" -> AnyIn(n.ops[x].as)
                                                     [] n.ops[x].o = "nodes" -> AnyIn(n.ops[x].ns) [] OTHER -> FALSE
         [] n.k = "doc" -> AnyIn(n.head) \/ AnyIn(n.body)
         [] n.k = "pkg" -> AnyIn(n.c)
         [] OTHER -> FALSE

(* are header maps mixed with other values? *)
RECURSIVE BadHeaders(_)
BadHeaders(n) ==
  LET AnyIn(s) == \E x \in 1..Len(s) : BadHeaders(s[x]) IN
  IF "k" \notin DOMAIN n THEN FALSE
  ELSE CASE n.k = "hdr" -> MixedHeaders(n)
         [] n.k \in {"el", "pkg"} -> AnyIn(n.c)
         [] n.k \in {"coll", "cond", "custom"} -> AnyIn(n.ns)
         [] OTHER -> FALSE

(* what a node says of itself *)
InfoOf(n) ==
  CASE n.k = "nil" -> "nil"
    [] n.k = "el" -> "element " \o n.n
    [] n.k = "attr" -> "attribute " \o n.n
    [] n.k \in {"text", "comment", "frag"} -> IF n.k = "frag" THEN "fragment" ELSE n.k
    [] n.k = "pi" -> "pi"
    [] n.k = "doc" -> "document"
    [] OTHER -> "other"

(***************************************************************************)
(* Conditions and the attributes of one start tag                           *)
(***************************************************************************)
Holds(c, cx) ==
  CASE c.c = "const" -> c.b
    [] c.c = "key" -> HasKey(cx.data, c.key) /\ LET v == Lookup(cx.data, c.key) IN (v.t = "bool" => v.b)
    [] c.c = "nkey" -> ~(HasKey(cx.data, c.key) /\ LET v == Lookup(cx.data, c.key) IN (v.t = "bool" => v.b))
    [] c.c = "cargo" -> cx.cargo.t = "str" /\ cx.cargo.s = c.s
    [] c.c = "parentkey" -> cx.parent # <<>> /\ HasKey(cx.parent[1].data, c.key)

AllHold(cs, cx) == \A i \in 1..Len(cs) : Holds(cs[i], cx)

(* the attributes whose conditions hold, on top of the unconditional ones: the *)
(* kind first declared under a name decides whether values are collected or    *)
(* the last one is taken                                                      *)
Effective(el, cx) ==
  LET sat == Map(LAMBDA ca : ca.at, SelectSeq(el.cas, LAMBDA ca : AllHold(ca.cs, cx)))
      For(nm) == SelectSeq(sat, LAMBDA a : a.n = nm)
      onTop(a) == LET more == For(a.n) IN
                  IF more = <<>> THEN a
                  ELSE IF a.kd = "delim" THEN [a EXCEPT !.vs = @ \o FlattenSeq2(Map(NodeVals, more))]
                  ELSE more[Len(more)]
      only == FoldLeft(LAMBDA acc, a :
                 IF HasAttr(el.as, a.n) \/ HasAttr(acc, a.n) THEN acc
                 ELSE LET all == For(a.n) IN
                      Append(acc, IF a.kd = "delim" THEN [a EXCEPT !.vs = FlattenSeq2(Map(NodeVals, all))] ELSE all[Len(all)]),
               <<>>, sat)
  IN Map(onTop, el.as) \o only

(***************************************************************************)
(* The machine.  State of one rendering:                                    *)
(*   ag    what is still to be done, next first                             *)
(*   out   tokens written: tag(n, as) text(v) close(n) comment(v) pi(n, v)   *)
(*   ev    callbacks made, in order, with the context each one saw           *)
(*   err   the first error, "" if none                                      *)
(*   cnt   calls made so far to each counting function (survives renders)    *)
(*   bs    text collected for the attribute, comment or pi being written     *)
(*   ps    the finished values of a delimited attribute being written        *)
(*   tag   the start tag being written                                      *)
(*   root  the data the rendering was given, as callbacks have changed it     *)
(*   dirty have they?                                                        *)
(***************************************************************************)
\* own: its data is the one the rendering was given (an item that is no map sees it too)
Ctx(data, cargo) == [data |-> data, cargo |-> cargo, parent |-> <<>>, own |-> TRUE]

Idle(cnt) == [ag |-> <<>>, out |-> <<>>, ev |-> <<>>, err |-> "", cnt |-> cnt,
              root |-> <<>>, dirty |-> FALSE,
              bs |-> "", ps |-> <<>>, tag |-> [k |-> "tag", n |-> "", as |-> <<>>], mode |-> "text"]

Start(n, cx, cnt) ==
  [Idle(cnt) EXCEPT !.ag = IF n.k = "nil" THEN <<>> ELSE << [a |-> "node", n |-> n, cx |-> cx] >>, !.root = cx.data]

Done(r) == r.ag = <<>>

Emit(r, tok) == [r EXCEPT !.out = Append(@, tok)]
EmitText(r, s) ==
  IF s = "" THEN r
  ELSE IF r.out # <<>> /\ r.out[Len(r.out)].k = "text"
       THEN [r EXCEPT !.out[Len(r.out)].v = @ \o s]
       ELSE Emit(r, [k |-> "text", n |-> "", v |-> s])
\* text goes to where we are: into the text, or into the attribute value, comment ... being written
Put(r, s) == IF r.mode = "text" THEN EmitText(r, s) ELSE [r EXCEPT !.bs = @ \o s]

NodeItems(cs, cx) == Map(LAMBDA n : [a |-> "node", n |-> n, cx |-> cx], cs)
ValItems(vs, cx) == Map(LAMBDA v : [a |-> "val", v |-> v, cx |-> cx], vs)
AttrItems(at, cx) ==
  << [a |-> "attr"] >>
  \o FlattenSeq2(Map(LAMBDA v : << [a |-> "val", v |-> v, cx |-> cx], [a |-> "part"] >>, at.vs))
  \o << [a |-> "endattr", at |-> at] >>
TagItems(nm, as, cx) ==
  << [a |-> "tag", n |-> nm] >> \o FlattenSeq2(Map(LAMBDA at : AttrItems(at, cx), as)) \o << [a |-> "gt"] >>

CallEv(kind, id, cx) == kind \o ":" \o id \o "|" \o DigCtx(cx)
Count(cnt, id) == IF id \in DOMAIN cnt THEN cnt[id] ELSE 0

\* what a dynamic value function of the harness returns
FnResult(v, cx, cnt) ==
  CASE v.mode = "const" -> v.s
    [] v.mode = "count" -> v.id \o "." \o ToString(Count(cnt, v.id) + 1)
    [] v.mode = "data" -> IF HasKey(cx.data, v.s) /\ Lookup(cx.data, v.s).t = "str" THEN Lookup(cx.data, v.s).s ELSE "-"
    [] v.mode = "cargo" -> IF cx.cargo.t = "str" THEN cx.cargo.s ELSE "-"
    [] v.mode = "parent" -> IF cx.parent # <<>> /\ cx.parent[1].cargo.t = "str" THEN cx.parent[1].cargo.s ELSE "-"

\* the items of a slice (bytes are a slice of numbers); of anything else there are none
SliceItems(v) == CASE v.t = "list" -> v.vs
                   [] v.t = "raw" -> [j \in 1..Len(v.s) |-> [t |-> "lit", ty |-> "uint8", s |-> ToString(Ord(Ch(v.s, j)))]]
                   [] OTHER -> <<>>
ItemsOf(src, cx) ==
  CASE src.s \in {"fn", "yield"} -> src.items
    [] src.s \in {"fnkey", "yieldkey"} -> IF HasKey(cx.data, src.key) /\ Lookup(cx.data, src.key).t = "list"
                            THEN Lookup(cx.data, src.key).vs ELSE <<>>
    [] src.s = "key" -> IF ~HasKey(cx.data, src.key) THEN <<>>
                        ELSE SliceItems(Lookup(cx.data, src.key))

ItemCtx(item, cx) == [data |-> IF item.t = "map" THEN item.m ELSE cx.data, cargo |-> item, parent |-> <<cx>>, own |-> item.t # "map" /\ cx.own]

(* a context with the data as it is now *)
RECURSIVE Fresh(_, _)
Fresh(root, cx) == [cx EXCEPT !.data = IF cx.own THEN root ELSE @,
                              !.parent = IF @ = <<>> THEN @ ELSE <<Fresh(root, @[1])>>]

\* (a callback that panics ends the rendering just so; what it left behind is not compared)
Fail(r, e) == [r EXCEPT !.ag = <<>>, !.err = e, !.ev = Append(@, "err:" \o e)]

StepVal(r, v, cx, rest) ==
  CASE v.t = "text" -> [Put(r, v.s) EXCEPT !.ag = rest]
    [] v.t = "key" -> LET s == IF v.key = "." THEN BytesOf(cx.cargo)
                               ELSE IF HasKey(cx.data, v.key) THEN BytesOf(Lookup(cx.data, v.key)) ELSE ""
                      IN [Put(r, s) EXCEPT !.ag = rest]
    [] v.t = "cat" -> [r EXCEPT !.ag = ValItems(v.vs, cx) \o rest]
    \* an error put into the context: nothing more is written, not even what the function returns
    [] v.t = "fn" /\ v.mode = "err" -> Fail([r EXCEPT !.ev = Append(@, CallEv("fn", v.id, cx))], v.s)
    [] v.t = "fn" -> [Put(r, FnResult(v, cx, r.cnt)) EXCEPT
                        !.ag = rest,
                        !.ev = Append(@, CallEv("fn", v.id, cx)),
                        !.cnt = (v.id :> (Count(r.cnt, v.id) + 1)) @@ @]

StepOp(r, it, rest) ==
  LET op == Head(it.ops)
      next(open) == << [it EXCEPT !.ops = Tail(@), !.open = open] >>
  IN CASE op.o = "str" -> [EmitText(r, StripNul(op.s)) EXCEPT !.ag = next(it.open) \o rest]
       [] op.o = "raw" -> [EmitText(r, op.s) EXCEPT !.ag = next(it.open) \o rest]
       [] op.o = "set" -> [r EXCEPT !.root = PutKey(@, op.key, op.v), !.dirty = TRUE, !.ag = next(it.open) \o rest]
       [] op.o = "err" -> Fail(r, op.s)
       [] op.o = "nodes" -> [r EXCEPT !.ag = NodeItems(op.ns, it.cx) \o next(it.open) \o rest]
       [] op.o = "start" -> [r EXCEPT !.ag = TagItems(op.n, op.as, it.cx)
                                  \o next(IF op.void THEN it.open ELSE Append(it.open, op.n)) \o rest]
       [] op.o = "end" -> IF it.open = <<>> THEN [r EXCEPT !.ag = next(<<>>) \o rest]
                          ELSE [Emit(r, [k |-> "close", n |-> it.open[Len(it.open)], v |-> ""]) EXCEPT
                                  !.ag = next(SubSeq(it.open, 1, Len(it.open) - 1)) \o rest]
       [] op.o = "endall" -> [r EXCEPT !.ag =
                                 Map(LAMBDA i : [a |-> "close", n |-> it.open[Len(it.open) + 1 - i]], [i \in 1..Len(it.open) |-> i])
                                 \o next(<<>>) \o rest]

StepNode(r, n, cx, rest) ==
  CASE n.k = "el" ->
         [r EXCEPT !.ag = TagItems(n.n, Effective(n, cx), cx)
                          \o (IF n.void THEN <<>> ELSE NodeItems(n.cs, cx) \o << [a |-> "close", n |-> n.n] >>)
                          \o rest]
    [] n.k \in {"text", "frag"} -> [r EXCEPT !.ag = ValItems(n.vs, cx) \o rest]
    [] n.k \in {"comment", "pi"} ->
         [r EXCEPT !.ag = << [a |-> "begin"] >> \o ValItems(n.vs, cx)
                          \o << [a |-> "emit", k |-> n.k, n |-> IF n.k = "pi" THEN n.n ELSE ""] >> \o rest]
    [] n.k = "attr" -> \* an attribute as the root of a rendering (a template marker): written like in a tag
         [r EXCEPT !.ag = << [a |-> "tag", n |-> ""] >> \o AttrItems(n, cx) \o << [a |-> "gt"] >> \o rest]
    [] n.k = "custom" -> [r EXCEPT !.ag = << [a |-> "tag", n |-> n.n], [a |-> "gt"] >> \o NodeItems(n.cs, cx)
                                           \o << [a |-> "close", n |-> n.n] >> \o (IF n.ret = "" THEN <<>> ELSE << [a |-> "fail", ret |-> n.ret] >>) \o rest]
    [] n.k \in {"coll", "doc"} -> [r EXCEPT !.ag = NodeItems(SelectSeq(n.cs, LAMBDA m : m.k # "attr"), cx) \o rest]
    [] n.k = "cond" -> [r EXCEPT !.ag = (IF Holds(n.c, cx)
                                         THEN NodeItems(SelectSeq(n.cs, LAMBDA m : m.k # "attr"), cx)
                                         ELSE <<>>) \o rest]
    [] n.k = "cc" /\ n.err # "" -> Fail([r EXCEPT !.ev = Append(@, CallEv("cc", n.id, cx))], n.err)
    [] n.k = "iter" /\ ErrOf(n.src) # "" /\ ErrAfter(n.src) = 0 -> Fail([r EXCEPT !.ev = Append(@, CallEv("iter", n.src.id, cx))], n.src.err)
    [] n.k = "cc" -> [r EXCEPT !.ag = NodeItems(SelectSeq(n.cs, LAMBDA m : m.k # "attr"), cx) \o rest,
                               !.ev = Append(@, CallEv("cc", n.id, cx))]
    [] n.k = "iter" ->
         [r EXCEPT !.ag = << [a |-> "items", items |-> ItemsOf(n.src, cx), cs |-> n.cs, cx |-> cx, id |-> n.src.id,
                                 bt |-> Between(n.src), err |-> ErrOf(n.src), ek |-> ErrAfter(n.src)] >> \o rest,
                   !.ev = IF n.src.s = "key" THEN @ ELSE Append(@, CallEv("iter", n.src.id, cx))]
    [] n.k = "imp" ->
         [r EXCEPT !.ag = << [a |-> "ops", id |-> n.id, ops |-> n.ops, ret |-> n.ret, rk |-> n.rk, open |-> <<>>, cx |-> cx] >> \o rest,
                   !.ev = Append(@, CallEv("imp", n.id, cx))]

Step(r) ==
  LET top == Head(r.ag)
      it == IF r.dirty /\ "cx" \in DOMAIN top THEN [top EXCEPT !.cx = Fresh(r.root, @)] ELSE top
      rest == Tail(r.ag)
  IN CASE it.a = "node" -> StepNode(r, it.n, it.cx, rest)
       [] it.a = "val" -> StepVal(r, it.v, it.cx, rest)
       [] it.a = "tag" -> [r EXCEPT !.ag = rest, !.tag = [k |-> "tag", n |-> it.n, as |-> <<>>], !.mode = "attr"]
       [] it.a = "attr" -> [r EXCEPT !.ag = rest, !.bs = "", !.ps = <<>>]
       [] it.a = "part" -> [r EXCEPT !.ag = rest, !.ps = Append(@, r.bs), !.bs = ""]
       [] it.a = "endattr" ->
            LET at == it.at
                v == IF at.kd = "delim" THEN JoinNE(r.ps, at.d) ELSE Cat(r.ps)
                \* a delimiter after the last non-empty value is tolerated when only empty values follow
                tr == IF at.kd = "delim" /\ v # "" /\ r.ps[Len(r.ps)] = "" THEN at.d ELSE ""
            IN [r EXCEPT !.ag = rest, !.tag.as = Append(@, [n |-> at.n, b |-> at.kd = "bool", v |-> v, tr |-> tr])]
       [] it.a = "gt" -> [Emit(r, r.tag) EXCEPT !.ag = rest, !.mode = "text"]
       [] it.a = "close" -> [Emit(r, [k |-> "close", n |-> it.n, v |-> ""]) EXCEPT !.ag = rest]
       [] it.a = "fail" -> Fail(r, it.ret)
       [] it.a = "begin" -> [r EXCEPT !.ag = rest, !.bs = "", !.mode = "other"]
       [] it.a = "emit" -> [Emit(r, [k |-> it.k, n |-> it.n, v |-> r.bs]) EXCEPT !.ag = rest, !.mode = "text"]
       [] it.a = "items" ->
            IF it.err # "" /\ (it.ek = 0 \/ it.items = <<>>) THEN Fail(r, it.err)
            ELSE IF it.items = <<>> THEN [EmitText(r, it.bt) EXCEPT !.ag = rest]
            ELSE [EmitText(r, it.bt) EXCEPT
                     !.ev = IF it.bt = "" THEN @ ELSE Append(@, CallEv("yield", it.id, it.cx)),
                     !.ag = NodeItems(it.cs, ItemCtx(Head(it.items), it.cx))
                            \o << [it EXCEPT !.items = Tail(@), !.ek = @ - 1] >> \o rest]
       [] it.a = "ops" -> IF it.ops # <<>> THEN StepOp(r, it, rest)
                          ELSE IF it.ret = "" \/ (it.rk # <<>> /\ ~HasKey(it.cx.data, it.rk[1])) THEN [r EXCEPT !.ag = rest]
                          ELSE Fail(r, it.ret)

\* running to the end in one go (used where only the result matters)
RECURSIVE Run(_)
Run(r) == IF Done(r) THEN r ELSE Run(Step(r))
Result(n, cx, cnt) == Run(Start(n, cx, cnt))
=============================================================================
