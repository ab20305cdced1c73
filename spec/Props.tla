-------------------------------- MODULE Props -------------------------------
(* What the properties demand of a rendering, stated over the syntax of the    *)
(* program and the tokens written, not in the terms in which module Aitch      *)
(* computes them.  Checked by TLC, at the end of every rendering of every       *)
(* program of the universes (Universe.tla), on the specification; the real      *)
(* code is bound to the same renderings by Conf.                              *)
EXTENDS Conf

IsAttrN(n) == "k" \in DOMAIN n /\ n.k \in {"attr", "battr", "dattr", "cattr"}
IsCond(x) == "k" \in DOMAIN x /\ x.k = "cond"
IsNode(x) == "k" \in DOMAIN x
Root == LET x == CHOOSE x \in 1..Len(Ops) : Ops[x].op = "make" /\ Ops[x].id = Op.id /\ x < pos
                   /\ \A y \in x + 1 .. pos - 1 : ~(Ops[y].op = "make" /\ Ops[y].id = Op.id)
        IN Ops[x].n
TagsOf(ts) == SelectSeq(ts, LAMBDA t : t.k = "tag")
TextIn(t) == IF t.k = "tag" THEN "" ELSE t.v

\* ------------------------------------------------------------------ C01
(* a reader of markup, character by character: where is it?                  *)
ReadStep(a, ch) ==
  CASE a.at = "text"    -> IF ch = "<" THEN [a EXCEPT !.at = "tag", !.marks = @ + 1] ELSE [a EXCEPT !.t = @ \o ch]
    [] a.at = "tag"     -> CASE ch = "\"" -> [a EXCEPT !.at = "value"] [] ch = ">" -> [a EXCEPT !.at = "text"]
                             [] ch = "!" -> [a EXCEPT !.at = "comment"] [] OTHER -> a
    [] a.at = "value"   -> IF ch = "\"" THEN [a EXCEPT !.at = "tag"] ELSE [a EXCEPT !.v = @ \o ch]
    [] a.at = "comment" -> IF ch = ">" THEN [a EXCEPT !.at = "text"] ELSE [a EXCEPT !.c = @ \o ch]
PropC01 ==
  LET s == Op.cargo.s
      e == Escape(s)
      d == Decode(e)
      doc == "<p a=\"" \o e \o "\">" \o e \o "<!" \o e \o "></p>"
      rd == FoldLeft(ReadStep, [at |-> "text", marks |-> 0, t |-> "", v |-> "", c |-> ""], Chars(doc))
  IN /\ d.ok /\ d.v = StripNul(s)
     /\ \A x \in {"<", ">", "\"", "'", NUL} : ~HasCh(e, x)
     \* the reader finds the three strings and the three pieces of markup, and ends outside all of them
     /\ rd.at = "text" /\ rd.marks = 3 /\ rd.t = e /\ rd.v = e /\ rd.c = e
     /\ \A x \in 1..Len(run.out) : run.out[x].k = "comment" => run.out[x].v \in {StripNul(s), StripNul(s) \o "+" \o StripNul(s)}

\* ------------------------------------------------------------------ C02
(* the leaves and elements of the tree, in order, each with the path of the   *)
(* elements it is in                                                         *)
MergeLeaf(acc, x) ==
  IF x.k = "text" /\ x.v = "" THEN acc
  ELSE IF x.k = "text" /\ acc # <<>> /\ acc[Len(acc)].k = "text" /\ acc[Len(acc)].path = x.path
       THEN [acc EXCEPT ![Len(acc)].v = @ \o x.v] ELSE Append(acc, x)
RECURSIVE Items(_, _)
Items(path, n) ==
  IF ~IsNode(n) THEN IF n.t = "nil" THEN <<>> ELSE << [path |-> path, k |-> "text", n |-> "", v |-> n.s] >>
  ELSE CASE n.k = "nil" \/ IsAttrN(n) -> <<>>
    [] n.k \in {"text", "frag"} -> Map(LAMBDA v : [path |-> path, k |-> "text", n |-> "", v |-> v.s], n.vs)
    [] n.k = "comment" -> << [path |-> path, k |-> "comment", n |-> "", v |-> Cat(Map(LAMBDA v : v.s, n.vs))] >>
    [] n.k = "pi" -> << [path |-> path, k |-> "pi", n |-> n.n, v |-> Cat(Map(LAMBDA v : v.s, n.vs))] >>
    [] n.k = "coll" -> FlattenSeq2(Map(LAMBDA x : Items(path, x), n.ns))
    [] n.k = "custom" -> << [path |-> path, k |-> "el", n |-> n.n, v |-> ""] >> \o FlattenSeq2(Map(LAMBDA x : Items(Append(path, n.n), x), n.ns))
    [] n.k = "el" ->
         LET void == n.ctor \in {"VoidElement", "NewVoidElement"} \/ (n.ctor = "Element" /\ n.n \in VoidNames) IN
         << [path |-> path, k |-> IF void THEN "void" ELSE "el", n |-> n.n, v |-> ""] >>
         \o (IF void THEN <<>> ELSE FlattenSeq2(Map(LAMBDA x : Items(Append(path, n.n), x), n.c)))
    [] n.k = "doc" ->
         << [path |-> path, k |-> "pi", n |-> "DOCTYPE", v |-> "html"], [path |-> path, k |-> "el", n |-> "html", v |-> ""] >>
         \o (IF n.head = <<>> THEN <<>>
             ELSE << [path |-> <<"html">>, k |-> "el", n |-> "head", v |-> ""] >> \o FlattenSeq2(Map(LAMBDA x : Items(<<"html", "head">>, x), n.head)))
         \o << [path |-> <<"html">>, k |-> "el", n |-> "body", v |-> ""] >> \o FlattenSeq2(Map(LAMBDA x : Items(<<"html", "body">>, x), n.body))
AllVoid == VoidNames \cup {"v"}
(* reading back: a stack of open elements *)
ReadBack(ts) ==
  FoldLeft(LAMBDA a, t :
      IF ~a.ok THEN a ELSE
      CASE t.k = "tag" -> [a EXCEPT !.items = Append(@, [path |-> a.open, k |-> IF t.n \in AllVoid THEN "void" ELSE "el", n |-> t.n, v |-> ""]),
                                    !.open = IF t.n \in AllVoid THEN @ ELSE Append(@, t.n)]
        [] t.k = "close" -> IF a.open # <<>> /\ a.open[Len(a.open)] = t.n
                            THEN [a EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)] ELSE [a EXCEPT !.ok = FALSE]
        [] OTHER -> [a EXCEPT !.items = Append(@, [path |-> a.open, k |-> t.k, n |-> t.n, v |-> t.v])],
    [ok |-> TRUE, open |-> <<>>, items |-> <<>>], ts)
PropC02 ==
  LET b == ReadBack(run.out) IN
  /\ b.ok /\ b.open = <<>>
  /\ b.items = FoldLeft(MergeLeaf, <<>>, Items(<<>>, Root))

\* ------------------------------------------------------------------ C03
(* all attributes given to an element, in the order given *)
RECURSIVE Given(_)
Given(ns) == FlattenSeq2(Map(LAMBDA n : IF IsNode(n) /\ n.k = "coll" THEN Given(n.ns)
                                        ELSE IF IsAttrN(n) THEN <<n>> ELSE <<>>, ns))
Texts(n) == IF n.k = "battr" THEN <<>> ELSE Map(LAMBDA v : v.s, n.vs)
ExpectAttr(given) ==   \* all of one name
  LET last == given[Len(given)]
      from == CHOOSE x \in 1..Len(given) : (\A y \in x..Len(given) : given[y].k = "dattr")
                                           /\ (x = 1 \/ given[x - 1].k # "dattr")
      tail == SubSeq(given, from, Len(given))
  IN CASE last.k = "battr" -> [b |-> TRUE, v |-> ""]
       [] last.k = "attr" -> [b |-> FALSE, v |-> Cat(Texts(last))]
       [] last.k = "dattr" -> [b |-> FALSE, v |-> JoinNE(FlattenSeq2(Map(Texts, tail)), tail[1].d)]
PropC03 ==
  LET given == IF Root.k = "imp" THEN SelectSeq(Root.ops[1].as, IsAttrN) ELSE Given(Root.c)
      names == {given[x].n : x \in 1..Len(given)}
      as == run.out[1].as
  IN /\ {as[x].n : x \in 1..Len(as)} = names
     /\ Len(as) = Cardinality(names)
     /\ \A x \in 1..Len(as) :
          LET e == ExpectAttr(SelectSeq(given, LAMBDA g : g.n = as[x].n)) IN as[x].b = e.b /\ as[x].v = e.v

\* ------------------------------------------------------------------ C04
(* every leaf with the conditions around it; conditions are key conditions *)
RECURSIVE Guarded(_, _)
Guarded(conds, ns) ==
  FlattenSeq2(Map(LAMBDA n :
      IF n.k = "coll" THEN Guarded(conds, n.ns)
      ELSE IF n.k = "cond" THEN Guarded(conds \cup {n.c}, n.ns)
      ELSE << [leaf |-> n, conds |-> conds] >>, ns))
KeyTrue(k) == HasKey(Op.data, k) /\ Lookup(Op.data, k) # [t |-> "bool", b |-> FALSE]
PropC04 ==
  LET part(g) == \A cd \in g.conds : IF cd.c = "key" THEN KeyTrue(cd.key) ELSE ~KeyTrue(cd.key)
      live == SelectSeq(Guarded({}, Root.c), part)
      attrs == SelectSeq(live, LAMBDA g : IsAttrN(g.leaf))
      \* unconditional first, then the others, as declared
      layered == SelectSeq(attrs, LAMBDA g : g.conds = {}) \o SelectSeq(attrs, LAMBDA g : g.conds # {})
      names == {attrs[x].leaf.n : x \in 1..Len(attrs)}
      as == run.out[1].as
      of(nm) == Map(LAMBDA g : g.leaf, SelectSeq(layered, LAMBDA g : g.leaf.n = nm))
      txt == IF Root.ctor = "NewVoidElement" THEN ""
             ELSE Cat(Map(LAMBDA g : Cat(Texts(g.leaf)), SelectSeq(live, LAMBDA g : g.leaf.k = "text")))
  IN /\ {as[x].n : x \in 1..Len(as)} = names /\ Len(as) = Cardinality(names)
     /\ \A x \in 1..Len(as) : LET e == ExpectAttr(of(as[x].n)) IN as[x].b = e.b /\ as[x].v = e.v
     /\ Cat(Map(TextIn, run.out)) = txt

\* ------------------------------------------------------------------ C05
(* the place of a name: unconditional ones by first declaration, then those    *)
(* only conditions add                                                       *)
PropC05 ==
  LET part(g) == \A cd \in g.conds : IF cd.c = "const" THEN cd.b ELSE IF cd.c = "key" THEN KeyTrue(cd.key) ELSE ~KeyTrue(cd.key)
      attrs == SelectSeq(SelectSeq(Guarded({}, Root.c), part), LAMBDA g : IsAttrN(g.leaf))
      st == {x \in 1..Len(attrs) : attrs[x].conds = {}}
      place(nm) == IF \E x \in st : attrs[x].leaf.n = nm
                   THEN CHOOSE x \in st : attrs[x].leaf.n = nm /\ \A y \in st : attrs[y].leaf.n = nm => x <= y
                   ELSE Len(attrs) + CHOOSE x \in 1..Len(attrs) : attrs[x].leaf.n = nm /\ \A y \in 1..Len(attrs) : attrs[y].leaf.n = nm => x <= y
      as == run.out[1].as
  IN \A x \in 1..Len(as) - 1 : place(as[x].n) < place(as[x + 1].n)

\* ------------------------------------------------------------------ C06
(* whatever happened in between, a node renders as its declaration alone       *)
(* (with the declarations it refers to written out) does                      *)
DeclOf(id) == Ops[CHOOSE x \in 1..Len(Ops) : Ops[x].op = "make" /\ Ops[x].id = id].n
RECURSIVE Expand(_), ExpandV(_)
ExpandV(v) ==
  CASE v.t = "node" -> [v EXCEPT !.n = Expand(@)]
    [] v.t \in {"cat", "pkg"} -> [v EXCEPT !.vs = Map(ExpandV, @)]
    [] v.t = "val" -> [v EXCEPT !.v = ExpandV(@)]
    [] v.t = "hmap" -> [v EXCEPT !.m = Map(LAMBDA kv : <<kv[1], ExpandV(kv[2])>>, @)]
    [] OTHER -> v
Expand(n) ==
  IF ~IsNode(n) THEN ExpandV(n)
  ELSE CASE n.k = "ref" -> Expand(DeclOf(n.id))
    [] n.k \in {"el", "pkg"} -> [n EXCEPT !.c = Map(Expand, @)]
    [] n.k = "hdr" -> [n EXCEPT !.vs = Map(ExpandV, @)]
    [] n.k = "doc" -> [n EXCEPT !.lang = ExpandV(@), !.head = Map(Expand, @), !.body = Map(Expand, @)]
    [] n.k \in {"coll", "cond", "iter", "cc", "custom"} -> [n EXCEPT !.ns = Map(Expand, @)]
    [] n.k \in {"text", "comment", "frag", "attr", "dattr", "pi"} -> [n EXCEPT !.vs = Map(ExpandV, @)]
    [] n.k = "imp" -> [n EXCEPT !.ops = Map(LAMBDA o : IF o.o = "start" THEN [o EXCEPT !.as = Map(Expand, @)]
                                                       ELSE IF o.o = "nodes" THEN [o EXCEPT !.ns = Map(Expand, @)] ELSE o, @)]
    [] OTHER -> n
PropC06 ==
  LET alone == Result(Declare(EmptyHeap, Expand(DeclOf(Op.id))), Ctx(Op.data, Op.cargo), NoCounts) IN
  run.out = alone.out /\ run.err = alone.err
\* declared nodes never change, and names are only added
HeapGrows == [][\A id \in DOMAIN hp : id \in DOMAIN hp' /\ hp'[id] = hp[id]]_hp

\* ------------------------------------------------------------------ C09
(* the same program with callbacks that never fail *)
RECURSIVE Calm(_)
Calm(n) ==
  IF ~IsNode(n) THEN n
  ELSE CASE n.k = "imp" -> [n EXCEPT !.ret = "", !.ops = Map(LAMBDA o : IF o.o = "nodes" THEN [o EXCEPT !.ns = Map(Calm, @)] ELSE o, SelectSeq(@, LAMBDA o : o.o # "err"))]
    [] n.k = "el" -> [n EXCEPT !.c = Map(Calm, @)]
    [] n.k = "cc" -> [n EXCEPT !.ns = Map(Calm, @), !.err = ""]
    [] n.k = "iter" -> [n EXCEPT !.ns = Map(Calm, @), !.src.err = ""]
    [] n.k = "text" -> [n EXCEPT !.vs = Map(LAMBDA v : IF v.t = "fn" /\ v.mode = "err" THEN [v EXCEPT !.mode = "const", !.s = ""] ELSE v, @)]
    [] n.k \in {"coll", "cond"} -> [n EXCEPT !.ns = Map(Calm, @)]
    [] n.k = "custom" -> [n EXCEPT !.ns = Map(Calm, @), !.ret = ""]
    [] OTHER -> n
RECURSIVE FailIds(_)
FailIds(n) ==
  IF ~IsNode(n) THEN {}
  ELSE CASE n.k = "imp" -> (IF n.ret = "" THEN {} ELSE {n.ret}) \cup UNION {FailIds(x) : x \in UNION {IF o.o = "nodes" THEN Range(o.ns) ELSE {} : o \in Range(n.ops)}}
                         \cup UNION {IF o.o = "err" THEN {o.s} ELSE {} : o \in Range(n.ops)}
    [] n.k = "cc" -> (IF ErrOf(n) = "" THEN {} ELSE {n.err}) \cup UNION {FailIds(x) : x \in Range(n.ns)}
    [] n.k = "iter" -> (IF ErrOf(n.src) = "" THEN {} ELSE {n.src.err}) \cup UNION {FailIds(x) : x \in Range(n.ns)}
    [] n.k = "text" -> UNION {IF v.t = "fn" /\ v.mode = "err" THEN {v.s} ELSE {} : v \in Range(n.vs)}
    [] n.k = "el" -> UNION {FailIds(x) : x \in Range(n.c)}
    [] n.k \in {"coll", "cond"} -> UNION {FailIds(x) : x \in Range(n.ns)}
    [] n.k = "custom" -> (IF n.ret = "" THEN {} ELSE {n.ret}) \cup UNION {FailIds(x) : x \in Range(n.ns)}
    [] OTHER -> {}
PrefixToks(a, b) ==
  /\ Len(a) <= Len(b)
  /\ \A x \in 1..Len(a) : \/ a[x] = b[x]
                          \/ x = Len(a) /\ a[x].k = "text" /\ b[x].k = "text" /\ IsPrefixStr(a[x].v, b[x].v)
PropC09 ==
  LET calm == Result(Declare(EmptyHeap, Calm(Root)), Ctx(Op.data, Op.cargo), NoCounts)
      fails == FailIds(Root)
  IN /\ calm.err = ""
     /\ (run.err = "") <=> (fails = {})             \* every callback of these programs is reached
     /\ run.err # "" => run.err \in fails
     /\ PrefixToks(run.out, calm.out)
     /\ run.err = "" => run.out = calm.out
     /\ \E k \in 0..Len(calm.ev) : SubSeq(calm.ev, 1, k) = SelectSeq(run.ev, LAMBDA e : ~IsErrEv(e))

\* ------------------------------------------------------------------ C10
(* the items an iteration must see, and what a probe in it must print *)
PV(v) == CASE v.t = "str" -> v.s [] v.t = "lit" -> v.s [] OTHER -> ""
Probe(cargo, data, parent) == "[" \o PV(cargo) \o "," \o (IF HasKey(data, "k") THEN PV(Lookup(data, "k")) ELSE "") \o "," \o parent \o "]"
PStr(v) == IF v.t = "str" THEN v.s ELSE "-"
RECURSIVE ProbeText(_, _, _, _)
SrcItems(src, data) == IF src.s \in {"fn", "yield"} THEN src.items
                       ELSE IF HasKey(data, src.key) THEN (LET l == Lookup(data, src.key) IN IF l.t = "list" THEN l.vs ELSE <<>>) ELSE <<>>
(* nodes: texts (probes are 7 texts long) and iterations *)
ProbeText(ns, cargo, data, parent) ==
  IF ns = <<>> THEN ""
  ELSE LET hd == Head(ns) IN
    CASE IsAttrN(hd) -> ProbeText(Tail(ns), cargo, data, parent)
      [] hd.k = "iter" ->
           LET bt == IF "bt" \in DOMAIN hd.src THEN hd.src.bt ELSE ""
           IN Cat(Map(LAMBDA it : bt \o ProbeText(hd.ns, it, IF it.t = "map" THEN it.m ELSE data, PStr(cargo)), SrcItems(hd.src, data)))
              \o bt \o ProbeText(Tail(ns), cargo, data, parent)
      [] hd.k = "text" -> Probe(cargo, data, parent) \o ProbeText(SubSeq(ns, 8, Len(ns)), cargo, data, parent)
PropC10 ==
  LET ns == IF Root.k = "coll" THEN Root.ns ELSE Root.c IN
  Cat(Map(TextIn, run.out)) = ProbeText(ns, Op.cargo, Op.data, "-")

\* ------------------------------------------------------------------ C11
(* a callback that ends with everything closed leaves balanced markup; at any  *)
(* time the open elements of the output are those of the callback, innermost   *)
(* last; nothing is closed that is not open                                   *)
StartsOf(ops, v) == {ops[x].n : x \in {y \in 1..Len(ops) : ops[y].o = "start" /\ ops[y].void = v}}
VoidStarts == IF Root.k = "imp" THEN StartsOf(Root.ops, TRUE) ELSE {}
\* whether a name tells if its element has an end
C11Clear == Root.k = "imp" => StartsOf(Root.ops, TRUE) \cap StartsOf(Root.ops, FALSE) = {}
OpenIn(ts) ==
  FoldLeft(LAMBDA a, t : IF t.k = "tag" /\ t.n \notin VoidStarts THEN Append(a, t.n)
                         ELSE IF t.k = "close" THEN (IF a # <<>> /\ a[Len(a)] = t.n THEN SubSeq(a, 1, Len(a) - 1) ELSE <<"!">> \o a)
                         ELSE a, <<>>, ts)
Ghost(ops) == FoldLeft(LAMBDA a, o : CASE o.o = "start" -> IF o.void THEN a ELSE Append(a, o.n)
                                       [] o.o = "end" -> IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1)
                                       [] o.o = "endall" -> <<>> [] OTHER -> a, <<>>, ops)
PropC11 ==
  C11Clear => LET o == OpenIn(run.out) IN
  /\ ~(\E x \in 1..Len(o) : o[x] = "!") \/ Root.k = "el" \/ (\E y \in 1..Len(Root.ops) : Root.ops[y].o = "nodes" /\ Root.ops[y].ns[1].k = "imp")
  /\ (Root.k = "imp" /\ ~\E y \in 1..Len(Root.ops) : Root.ops[y].o = "nodes" /\ Root.ops[y].ns[1].k = "imp") => o = Ghost(Root.ops)

\* ------------------------------------------------------------------ C13
(* how often each callback occurs in what is reached *)
RECURSIVE Occ(_, _), OccV(_, _)
OccV(id, v) == CASE v.t = "fn" -> IF v.id = id THEN 1 ELSE 0
                 [] v.t = "cat" -> FoldLeft(LAMBDA a, x : a + OccV(id, x), 0, Map(LAMBDA y : IF y.t = "fn" THEN y ELSE NilV, v.vs))
                 [] OTHER -> 0
Sum(F(_), s) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
\* an attribute overridden by a conditional one of the same name is not reached
Occ(id, n) ==
  IF ~IsNode(n) THEN OccV(id, n) ELSE
  CASE n.k \in {"text", "comment", "attr", "dattr"} -> Sum(LAMBDA v : OccV(id, v), n.vs)
    [] n.k = "cond" -> IF KeyTrue(n.c.key) THEN Sum(LAMBDA x : Occ(id, x), n.ns) ELSE 0
    [] n.k = "el" -> LET over == {x.n : x \in UNION {IF IsCond(y) /\ KeyTrue(y.c.key) THEN Range(y.ns) ELSE {} : y \in Range(n.c)} \cap {z \in UNION {IF IsCond(y) THEN Range(y.ns) ELSE {} : y \in Range(n.c)} : IsAttrN(z)}} IN
                     Sum(LAMBDA x : IF IsAttrN(x) /\ x.n \in over THEN 0 ELSE Occ(id, x), n.c)
    [] n.k = "iter" -> Len(n.src.items) * Sum(LAMBDA x : Occ(id, x), n.ns) + (IF n.src.id = id THEN 1 ELSE 0)
    [] n.k = "cc" -> (IF n.id = id THEN 1 ELSE 0) + Sum(LAMBDA x : Occ(id, x), n.ns)
    [] n.k = "imp" -> (IF n.id = id THEN 1 ELSE 0)
                      + Sum(LAMBDA o : IF o.o = "nodes" THEN Sum(LAMBDA x : Occ(id, x), o.ns) ELSE IF o.o = "start" THEN Sum(LAMBDA x : Occ(id, x), o.as) ELSE 0, n.ops)
    [] OTHER -> 0
C13Ids == {"1", "1x", "1y", "1z", "1w", "1v", "2", "2x", "2y", "2z", "2w", "2v", "i1", "i2", "c1", "c2", "m1", "m2"}
PropC13 ==
  \A id \in C13Ids :
    Cardinality({x \in 1..Len(run.ev) : \E k \in {"fn", "cc", "iter", "imp"} : IsPrefixStr(k \o ":" \o id \o "|", run.ev[x])}) = Occ(id, Root)

\* ------------------------------------------------------------------ C14
(* one value reads the same wherever it is put *)
PropC14 ==
  LET val == Op.cargo
      s == BytesOf(val)
      at(nm) == LET S == {x \in 1..Len(run.out) : run.out[x].k = "tag" /\ run.out[x].n = nm} IN run.out[CHOOSE x \in S : \A y \in S : x <= y]
      com == CHOOSE x \in 1..Len(run.out) : run.out[x].k = "comment"
      after(nm) == {run.out[x + 1].v : x \in {y \in 1..Len(run.out) : run.out[y].k = "tag" /\ run.out[y].n = nm}}
  IN /\ at("div").as[1].v = s /\ at("k").as[1].v = s
     /\ at("div").as[2].v = (IF s = "" THEN "x" ELSE "x|" \o s \o "|" \o s)
     /\ run.out[com].v = s
     /\ after("i") \subseteq {s} /\ after("l") \subseteq {s} /\ after("c") \subseteq {s}

\* ------------------------------------------------------------------ C16
RECURSIVE NoNils(_)
NoNils(n) ==
  IF ~IsNode(n) THEN n
  ELSE CASE n.k = "el" -> [n EXCEPT !.c = Map(NoNils, NotNil(SelectSeq(@, IsNode)))]
    [] n.k \in {"coll", "cond", "iter", "cc", "custom"} -> [n EXCEPT !.ns = Map(NoNils, NotNil(@))]
    [] n.k = "imp" -> [n EXCEPT !.ops = Map(LAMBDA o : IF o.o = "start" THEN [o EXCEPT !.as = NotNil(@)]
                                                       ELSE IF o.o = "nodes" THEN [o EXCEPT !.ns = Map(NoNils, NotNil(@))] ELSE o, @)]
    [] n.k = "doc" -> [n EXCEPT !.head = Map(NoNils, NotNil(@)), !.body = Map(NoNils, NotNil(@))]
    [] OTHER -> n
PropC16 ==
  IF Op.id # "root"
  THEN LET nd == Root.ns[2]
           nm == IF nd.k = "el" /\ nd.ctor \in {"Element", "VoidElement"} THEN nd.n ELSE nd.c[1].n
           seen == \E x \in 1..Len(run.out) : run.out[x].k = "tag" /\ (run.out[x].n = nm \/ \E y \in 1..Len(run.out[x].as) : run.out[x].as[y].n = nm)
       IN seen <=> ValidName(nm) \/ (nm = "p")
  ELSE run.out = Result(Declare(EmptyHeap, NoNils(Root)), Ctx(Op.data, Op.cargo), NoCounts).out

\* ------------------------------------------------------------------ C17
(* the text of a value in the context of the rendering *)
RECURSIVE Text17(_)
Text17(v) ==
  CASE v.t = "str" -> v.s
    [] v.t = "key" -> IF HasKey(Op.data, v.key) THEN BytesOf(Lookup(Op.data, v.key)) ELSE ""
    [] v.t = "fn" -> IF v.mode = "const" THEN v.s ELSE IF HasKey(Op.data, v.s) THEN BytesOf(Lookup(Op.data, v.s)) ELSE "-"
    [] v.t = "cat" -> Cat(Map(Text17, v.vs))
    [] v.t = "nil" -> ""
    [] v.t \in {"raw", "lit"} -> v.s
    [] v.t = "bool" -> (IF v.b THEN "true" ELSE "false")
    [] v.t = "pkg" -> (CASE v.f = "htmx.Var" -> v.nm \o ": " \o Text17(v.vs[1])
                         [] v.f = "css.Important" -> " !important"
                         [] v.f = "css.BorderSolid" -> "solid"
                         [] OTHER -> Cat(Map(Text17, v.vs)) \o Catalog[v.f].n)
AttrName(n) == CASE n.k = "hdr" -> "hx-headers" [] n.k = "pkg" -> (IF Catalog[n.f].kind = "css" THEN "style" ELSE Catalog[n.f].n) [] OTHER -> n.n
(* the entries a node adds to its attribute *)
Entries(n) == IF n.k = "pkg" /\ Catalog[n.f].kind = "css" THEN <<Catalog[n.f].n \o Cat(Map(Text17, n.c))>>
              ELSE Map(Text17, IF n.k = "pkg" THEN n.c ELSE n.vs)
Delim17(nm) == CASE nm = "style" -> "; " [] nm = "hx-vars" -> ", " [] OTHER -> " "
HdrText(n) ==
  LET m == n.vs
      maps == n.js \/ \E x \in 1..Len(m) : m[x].t = "hmap"
      order == <<"", "A", "A b", "AA", "B", "X-a", "Z", "_", "b", "x10", "x9">>
      has(k) == {x \in 1..Len(m) : HasKey(m[x].m, k)}
      last(k) == Lookup(m[CHOOSE x \in has(k) : \A y \in has(k) : y <= x].m, k)
      ks == SelectSeq(order, LAMBDA k : has(k) # {})
  IN IF ~maps THEN Cat(Map(Text17, m))
     ELSE (IF n.js THEN "js:" ELSE "") \o "{" \o Join(Map(LAMBDA k : "'" \o k \o "': " \o Text17(last(k)), ks), ", ") \o "}"
PropC17 ==
  LET part(g) == \A cd \in g.conds : IF cd.c = "key" THEN KeyTrue(cd.key) ELSE ~KeyTrue(cd.key)
      live == SelectSeq(Guarded({}, Root.c), part)
      layered == Map(LAMBDA g : g.leaf, SelectSeq(live, LAMBDA g : g.conds = {}) \o SelectSeq(live, LAMBDA g : g.conds # {}))
      names == {AttrName(layered[x]) : x \in 1..Len(layered)}
      as == run.out[1].as
      expect(nm) == LET of == SelectSeq(layered, LAMBDA n : AttrName(n) = nm) IN
                    IF nm = "hx-headers" THEN HdrText(of[Len(of)])
                    ELSE JoinNE(FlattenSeq2(Map(Entries, of)), Delim17(nm))
  IN /\ {as[x].n : x \in 1..Len(as)} = names /\ Len(as) = Cardinality(names)
     /\ \A x \in 1..Len(as) : ~as[x].b /\ as[x].v = expect(as[x].n)

\* ------------------------------------------------------------------ C19
(* a constructor's node shows its own name, whatever it is given: an element   *)
(* as a tag inside w, an attribute on w, once                                 *)
PropC19 ==
  LET made == [x \in {y \in 1..Len(Ops) : Ops[y].op = "make" /\ Ops[y].n.k = "pkg"} |-> Ops[x].n]
      ts == run.out
      ws == ts[1].as
      tagsOf(nm) == {x \in 2..Len(ts) : ts[x].k = "tag" /\ ts[x].n = nm}
      closes(nm) == {x \in 2..Len(ts) : ts[x].k = "close" /\ ts[x].n = nm}
      one(n) ==
        LET e == Catalog[n.f] IN
        CASE e.kind = "el" -> /\ tagsOf(e.n) # {} /\ Cardinality(tagsOf(e.n)) = Cardinality(closes(e.n)) /\ 2 \in tagsOf(e.n)
          [] e.kind = "void" -> 2 \in tagsOf(e.n) /\ closes(e.n) = {} /\ ts[3].k = "text" /\ ts[3].v = "|"
          [] e.kind = "bool" -> Len(ws) = 1 /\ ws[1].n = e.n /\ ws[1].b
          [] e.kind \in {"attr", "delim"} -> Len(ws) = 1 /\ ws[1].n = e.n /\ ~ws[1].b
          [] e.kind = "css" -> Len(ws) = 1 /\ ws[1].n = "style" /\ IsPrefixStr(e.n, ws[1].v)
          [] e.kind = "prefixed" -> \E x \in 1..Len(ws) : ws[x].n = e.n \o n.nm /\ ~ws[x].b
          [] OTHER -> TRUE
  IN \A x \in DOMAIN made : one(made[x])

PropHolds ==
  (Complete /\ verdict = "run" /\ Case.u) =>
    CASE Property = "C01" -> PropC01 [] Property = "C02" -> PropC02 [] Property = "C03" -> PropC03
      [] Property = "C04" -> PropC04 [] Property = "C05" -> PropC05 [] Property = "C06" -> PropC06
      [] Property = "C09" -> PropC09 [] Property = "C10" -> PropC10 [] Property = "C11" -> PropC11
      [] Property = "C13" -> PropC13 [] Property = "C14" -> PropC14 [] Property = "C16" -> PropC16
      [] Property = "C17" -> PropC17 [] Property = "C19" -> PropC19
      [] OTHER -> TRUE
=============================================================================
