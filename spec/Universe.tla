------------------------------ MODULE Universe ------------------------------
(* The finite universes of programs that are explored exhaustively: one for   *)
(* each property that is about programs.  Evaluating this module writes the    *)
(* universe of property PROP, at size TIER, to the file OUT; the programs are  *)
(* then run by the real code, and by the machine (module Conf), where module   *)
(* Props states what each property demands of them.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Property == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"
Pick(q, t) == IF Thorough THEN t ELSE q
Sp == JsonDeserialize("chars.json")

Cats == JsonDeserialize("catalog.json")
Of(kinds) == {f \in DOMAIN Cats : Cats[f].kind \in kinds}
Seqs(S, lo, hi) == UNION {[1..m -> S] : m \in lo..hi}

\* ---------------------------------------------------------------- syntax
NilV == [t |-> "nil"]
NilN == [k |-> "nil"]
Str(s) == [t |-> "str", s |-> s]
Key(k) == [t |-> "key", key |-> k]
Fn(id) == [t |-> "fn", id |-> id, mode |-> "const", s |-> id]
FnM(id, mode, s) == [t |-> "fn", id |-> id, mode |-> mode, s |-> s]
Bool(b) == [t |-> "bool", b |-> b]
Txt(s) == [k |-> "text", vs |-> <<Str(s)>>]
TxtV(v) == [k |-> "text", vs |-> <<v>>]
Com(s) == [k |-> "comment", vs |-> <<Str(s)>>]
ComV(v) == [k |-> "comment", vs |-> <<v>>]
Frag(s) == [k |-> "frag", vs |-> <<Str(s)>>]
Pi(n, s) == [k |-> "pi", n |-> n, vs |-> <<Str(s)>>]
Att(n, s) == [k |-> "attr", ctor |-> "NewAttribute", n |-> n, vs |-> <<Str(s)>>]
AttV(n, vs) == [k |-> "attr", ctor |-> "NewAttribute", n |-> n, vs |-> vs]
Bat(n) == [k |-> "battr", ctor |-> "NewBooleanAttribute", n |-> n]
Dat(n, d, ss) == [k |-> "dattr", ctor |-> "NewDelimitedAttribute", n |-> n, d |-> d, vs |-> [x \in 1..Len(ss) |-> Str(ss[x])]]
DatV(n, d, vs) == [k |-> "dattr", ctor |-> "NewDelimitedAttribute", n |-> n, d |-> d, vs |-> vs]
El(n, cs) == [k |-> "el", ctor |-> "NewElement", n |-> n, c |-> cs]
ElC(ctor, n, cs) == [k |-> "el", ctor |-> ctor, n |-> n, c |-> cs]
Void(n, cs) == [k |-> "el", ctor |-> "NewVoidElement", n |-> n, c |-> cs]
Coll(ns) == [k |-> "coll", ns |-> ns]
CondC(c, ns) == [k |-> "cond", via |-> "Conditional", c |-> c, ns |-> ns]
When(key, ns) == [k |-> "cond", via |-> "When", c |-> [c |-> "key", key |-> key], ns |-> ns]
NWhen(key, ns) == [k |-> "cond", via |-> "When", c |-> [c |-> "nkey", key |-> key], ns |-> ns]
Ref(id) == [k |-> "ref", id |-> id]
\* a yielding callback that writes bt around its items, and puts err into the context after ek of them
YieldB(s, id, key, items, ns, bt, err, ek) == [k |-> "iter", src |-> [s |-> s, id |-> id, key |-> key, items |-> items, err |-> err, bt |-> bt, ek |-> ek], ns |-> ns]
Iter(s, id, key, items, ns) == [k |-> "iter", src |-> [s |-> s, id |-> id, key |-> key, items |-> items, err |-> ""], ns |-> ns]
Cc(id, ns) == [k |-> "cc", id |-> id, err |-> "", ns |-> ns]
Own(ty, nm, ns, ret) == [k |-> "custom", ty |-> ty, n |-> nm, ns |-> ns, ret |-> ret]
OwnA(nm, s) == [k |-> "cattr", n |-> nm, s |-> s]
OSet(k, v) == [o |-> "set", key |-> k, v |-> v]
OErr(e) == [o |-> "err", s |-> e]
Imp(id, ops, ret) == [k |-> "imp", id |-> id, ops |-> ops, ret |-> ret]
OStart(n, void, as) == [o |-> "start", n |-> n, void |-> void, as |-> as]
OEnd == [o |-> "end"]
OEndAll == [o |-> "endall"]
OStr(s) == [o |-> "str", s |-> s]
ORaw(s) == [o |-> "raw", s |-> s]
ONodes(ns) == [o |-> "nodes", ns |-> ns]
NilMap == [t |-> "map", m |-> <<>>, nil |-> TRUE]
MapV(m) == [t |-> "map", m |-> m]
ListV(vs) == [t |-> "list", ty |-> "any", vs |-> vs]

Pkg(f, c) == [k |-> "pkg", f |-> f, nm |-> "", c |-> c]
PkgN(f, nm, c) == [k |-> "pkg", f |-> f, nm |-> nm, c |-> c]
PV(f, vs) == [t |-> "pkg", f |-> f, nm |-> "", vs |-> vs]
VarV(nm, v) == [t |-> "pkg", f |-> "htmx.Var", nm |-> nm, vs |-> <<v>>]
CatV(vs) == [t |-> "cat", vs |-> vs]

HMap(m) == [t |-> "hmap", m |-> m]
Hdr(js, vs) == [k |-> "hdr", js |-> js, vs |-> vs]
OpMake(id, nd) == [op |-> "make", id |-> id, n |-> nd]
OpRender(id, data, cargo) == [op |-> "render", id |-> id, data |-> data, cargo |-> cargo]
Program(ops) == [u |-> TRUE, ops |-> ops]
\* (compared with the machine only; not subject to what Props states of the universe)
Loose(p) == [p EXCEPT !.u = FALSE] @@ [reuse |-> TRUE]
One(nd) == Program(<<OpMake("root", nd), OpRender("root", <<>>, NilV)>>)
With(nd, datas) == Program(<<OpMake("root", nd)>> \o [x \in 1..Len(datas) |-> OpRender("root", datas[x], NilV)])

\* ---------------------------------------------------------------- C01: strings
C01Chars == {"a", "<", ">", "&", "\"", "'", Sp.nul, Pick(";", ";"), "-"}
RECURSIVE StrOf(_)
StrOf(q) == IF q = <<>> THEN "" ELSE q[1] \o StrOf(Tail(q))
C01Strings == {StrOf(q) : q \in Seqs(C01Chars, 1, Pick(3, 4))}
C01Routes(s) == << Str(s), [t |-> "strg", s |-> s], [t |-> "fany", v |-> Str(s)],
                   Key("k"), Key("g"), Key("f"), Key("."),
                   [t |-> "cat", vs |-> <<Str(s), Str("+"), Key("k")>>], [t |-> "val", v |-> Str(s)],
                   [t |-> "node", n |-> TxtV(Str(s))] >>
C01Program(s) ==
  LET rt == C01Routes(s)
      at(x) == El("p", <<AttV("a", <<rt[x]>>), DatV("c", " ", <<rt[x], Str("z")>>), TxtV(rt[x]), ComV(rt[x]), rt[x]>>)
  IN Program(<< OpMake("root", El("div", [x \in 1..Len(rt) |-> at(x)] \o
                  << Iter("fn", "i", "", <<Str(s), MapV(<< <<"k", Str(s)>> >>)>>, << TxtV(Key(".")), TxtV(Key("k")) >>),
                     Iter("key", "", "ls", <<>>, << TxtV(Key(".")), AttV("w", <<Key(".")>>), El("i", <<AttV("v", <<Key(".")>>)>>) >>),
                     Iter("key", "", "lm", <<>>, << TxtV(Key("k")), El("i", <<AttV("v", <<Key("k"), Key(".")>>)>>) >>), Iter("fnkey", "j", "ls", <<>>, << TxtV(Key(".")) >>),
                     Iter("key", "", "la", <<>>, << TxtV(Key(".")) >>), Iter("yieldkey", "y", "la", <<>>, << TxtV(Key(".")), ComV(Key(".")) >>),
                     Imp("m", <<OStr(s), OStart("b", FALSE, <<AttV("t", <<Str(s)>>), DatV("u", ",", <<Str(s), Key("k")>>)>>), OStr(s), OEnd>>, ""),
                     Pkg("html.A", <<Pkg("css.Color", <<Str(s), PV("css.Px", <<Key("k")>>)>>), Pkg("html.Style", <<Str(s)>>), Pkg("htmx.Vars", <<VarV(s, Str(s))>>),
                                     [k |-> "hdr", js |-> FALSE, vs |-> <<[t |-> "hmap", m |-> << <<"k" \o s, Str(s)>> >>]>>], PkgN("html.Aria", "x", <<Str(s), Key("k")>>),
                                     When("k", <<Pkg("css.Top", <<Str(s)>>), Pkg("html.Title", <<Key(".")>>)>>), Pkg("html.Comment", <<Str(s)>>), Str(s)>>),
                     Pkg("svg.Text", <<Str(s)>>), Pkg("svg.G", <<Pkg("svg.Id", <<Str(s)>>), Pkg("svg.Comment", <<Key("k")>>)>>) >>)),
                OpRender("root", << <<"f", [t |-> "fany", v |-> Str(s)]>>, <<"g", [t |-> "strg", s |-> s]>>, <<"k", Str(s)>>,
                                     <<"la", ListV(<<Str(s), [t |-> "strg", s |-> s], [t |-> "fany", v |-> Str(s)]>>)>>, <<"lm", [t |-> "list", ty |-> "map", vs |-> <<MapV(<< <<"k", Str(s)>> >>)>>]>>,
                                     <<"ls", [t |-> "list", ty |-> "string", vs |-> <<Str(s), Str("a")>>]>> >>, Str(s)) >>)
\* strings that are harmless alone, next to each other
C01Pieces == {"-", "--", "->", "-->", ">", "<", "!", "<!--", "&", "lt;", "&lt", ";", "#39;", "\"", "'", "=", "x"}
C01Pair(a, b) ==
  LET two == <<Str(a), Str(b)>> IN
  Program(<< OpMake("root", El("div", << [k |-> "text", vs |-> two], [k |-> "comment", vs |-> two], [k |-> "comment", vs |-> <<Str(a), Key("k"), Str(a)>>], [k |-> "comment", vs |-> <<Key("k"), Str(a), Key("k")>>],
                El("p", <<AttV("a", two), DatV("c", "", two), AttV("b", <<Key("k"), Str(a)>>), AttV("d", <<CatV(<<Key("k"), Str(b)>>), Str(a)>>), Str(a), Str(b)>>),
                Imp("m", <<OStr(a), OStr(b), OStart("b", FALSE, <<AttV("t", two), DatV("u", "", <<Key("k"), Str(a)>>)>>), OStr(b), OStr(a), OEnd>>, ""),
                Pkg("html.Comment", two), Pkg("svg.Comment", two), Pkg("html.Text", two), Pkg("svg.Text", two), Pkg("svg.G", <<Pkg("svg.Id", two), PkgN("html.Data", "x", two)>>) >>)),
             OpRender("root", << <<"k", Str(b)>> >>, Str(a)) >>)
C01 == {C01Program(s) : s \in C01Strings} \cup {[C01Pair(a, b) EXCEPT !.u = FALSE] : a \in C01Pieces, b \in C01Pieces}

\* ---------------------------------------------------------------- C02: trees
C02Leaf == {Txt("t"), Com("c"), Att("a", "1"), ElC("Element", "br", <<Att("b", "1"), Txt("x")>>), Void("v", <<Txt("y"), El("i", <<>>)>>)}
           \cup Pick({}, {Pi("X", "p"), Frag("f")})
C02Mid == {El("p", q) : q \in Seqs(C02Leaf, 0, 2)} \cup {Coll(q) : q \in Seqs(C02Leaf, 0, 2)}
C02Deep == {El("u", <<Coll(<<El("p", <<Coll(<<x, y>>)>>), y, Coll(<<Coll(<<x>>)>>)>>), x>>) : x \in C02Leaf, y \in C02Leaf}
C02Doc == {[k |-> "doc", lang |-> l, head |-> hd, body |-> bd] :
             l \in {NilV, Str("en")}, hd \in Seqs(C02Leaf, 0, 1), bd \in Seqs(C02Leaf, 0, 1)}
C02Near == UNION {{n, n \o ":", n \o "1", "x" \o n, n \o ".", "x:" \o n, SubSeq(n, 1, Len(n) - 1)} : n \in {"area","base","br","col","embed","hr","img","input","link","meta","param","source","track","wbr"}} \ {""}
C02 == {One(El("div", <<ElC("Element", n, <<Txt("x"), Att("a", "1")>>), Txt("y")>>)) : n \in C02Near}
       \cup {One(El("div", q)) : q \in Seqs(C02Leaf \cup C02Mid, 0, 2)}
       \cup {One(El("div", <<Own(ty, "own", <<x, NilN>>, ""), y>>)) : ty \in {"el", "text", "comment", "pi", "doc", "frag", "own", "anon", "neg"}, x \in C02Leaf, y \in C02Leaf}
       \cup {One(Coll(<<Own(ty, "own", <<x, El("p", <<Own("text", "in", <<y>>, "")>>)>>, ""), y>>)) : ty \in {"el", "anon"}, x \in C02Leaf, y \in C02Leaf}
       \cup {One(x) : x \in C02Deep \cup C02Mid \cup C02Doc \cup {Pi("X", "p"), Frag("f")}}

\* ---------------------------------------------------------------- C03: repeated attributes
C03Alpha == {Att("a", "1"), Att("a", "2"), Dat("k", " ", <<"x">>), Dat("k", " ", <<"y", "">>), Dat("k", " ", <<>>),
             Bat("m"), Att("m", "v"), Dat("m", ",", <<"p", "", "q">>), Coll(<<Dat("k", " ", <<"z">>), Coll(<<Att("a", "3")>>)>>)}
\* kinds mixed under a condition
C03Cond == {Att("m", "1"), Bat("m"), Dat("m", ",", <<"p", "q">>), Dat("m", ";", <<"r">>), AttV("m", <<Str("s"), Str("t")>>), Dat("m", ",", <<>>)}
C03 == {Loose(With(El("p", pre \o <<When("k", <<x, y>>), Att("n", "2"), When("k", <<Coll(<<z>>)>>)>>), << << <<"k", Bool(TRUE)>> >>, <<>> >>)) :
          pre \in {<<w>> : w \in C03Cond} \cup {<<>>}, x \in C03Cond, y \in C03Cond, z \in C03Cond}
       \cup {One(El("p", <<x, y, z>>)) : x \in C03Cond, y \in C03Cond, z \in C03Cond}
       \cup {One(El("p", q)) : q \in Seqs(C03Alpha, 0, Pick(3, 4))}
       \cup {One(Void("p", q)) : q \in Seqs(C03Alpha, 2, 2)}
       \cup {One(Imp("m", <<OStart("p", FALSE, q), OEnd>>, "")) : q \in Seqs(C03Alpha \ {Coll(<<Dat("k", " ", <<"z">>), Coll(<<Att("a", "3")>>)>>)}, 2, 3)}

\* ---------------------------------------------------------------- C04: conditionals
C04Leaf == {Att("a", "1"), Dat("c", " ", <<"x">>), Txt("T")}
C04L2 == {Att("a", "2"), Dat("c", " ", <<"y">>), Txt("U")}
C04In == {When("k2", <<l>>) : l \in C04Leaf} \cup {NWhen("k1", <<l>>) : l \in C04L2}
C04D2 == {When("k1", <<x, y>>) : x \in C04In, y \in C04In \cup C04L2}
         \cup {CondC([c |-> "key", key |-> "k3"], <<Coll(<<x>>), y>>) : x \in C04In, y \in C04In}
C04Deep == {When("k1", << When("k2", << When("k3", <<x>>), When("k4", <<y>>), z >>), When("k3", <<y, x>>) >>) :
              x \in C04Leaf, y \in C04L2, z \in {Coll(<<When("k4", <<Dat("c", " ", <<"w">>)>>), Att("a", "5")>>)}}
           \cup {When("k1", << When("k2", << When("k3", << When("k4", <<x>>), NWhen("k4", <<y>>) >>) >>) >>) : x \in C04Leaf, y \in C04L2}
RECURSIVE C04Chain(_, _, _)
C04Chain(ks, ns, q) == LET k == ks[1] IN
  IF Len(ks) = 1 THEN When(k, ns) ELSE IF q = "n" THEN When(k, <<C04Chain(Tail(ks), ns, q)>>)
  ELSE IF q = "c" THEN When(k, <<Coll(<<C04Chain(Tail(ks), ns, q)>>), Att(k, "1")>>) ELSE When(k, <<Dat("c", " ", <<k>>), C04Chain(Tail(ks), ns, q), Txt(k)>>)
C04Chains == {C04Chain([x \in 1..m |-> "k" \o ToString(x)], <<l>>, q) : m \in 4..7, l \in {Att("a", "1"), Txt("T")}, q \in {"n", "c", "m"}}
C04Pre == {<<>>, <<Att("a", "0"), Dat("c", " ", <<"s">>)>>}
Datum(x) == CASE x = "true" -> Bool(TRUE) [] x = "false" -> Bool(FALSE) [] x = "nil" -> NilV [] x = "empty" -> Str("") [] x = "falsetext" -> Str("false")
              [] x = "zero" -> [t |-> "lit", ty |-> "int", s |-> "0"] [] x = "zero8" -> [t |-> "lit", ty |-> "uint8", s |-> "0"] [] x = "zerof" -> [t |-> "lit", ty |-> "float64", s |-> "0"]
              [] x = "emptylist" -> ListV(<<>>) [] x = "emptymap" -> MapV(<<>>) [] x = "fnfalse" -> [t |-> "fany", v |-> Bool(FALSE)] [] x = "strg" -> [t |-> "strg", s |-> ""]
              [] x = "ptr" -> [t |-> "other", s |-> "ptr"] [] x = "raw" -> [t |-> "raw", s |-> ""] [] OTHER -> Str("v")
DataOf(f, ks) == LET idx == SelectSeq([x \in 1..Len(ks) |-> x], LAMBDA x : f[x] # "absent") IN
                 [x \in 1..Len(idx) |-> << ks[idx[x]], Datum(f[idx[x]]) >>]
Datas(ks, vals) == SetToSeq({DataOf(f, ks) : f \in [1..Len(ks) -> vals]})
C04Kinds == {"true", "false", "absent", "nil", "empty", "falsetext", "zero", "zero8", "zerof", "emptylist", "emptymap", "fnfalse", "strg", "ptr", "raw", "value"}
C04L1 == {When("k1", <<l>>) : l \in C04Leaf} \cup {NWhen("k1", <<l>>) : l \in C04Leaf}
C04Nest == {When("k1", <<y>>) : y \in {When("k2", <<l>>) : l \in C04Leaf} \cup {NWhen("k2", <<l>>) : l \in C04L2} \cup {CondC([c |-> "parentkey", key |-> "k1"], <<l>>) : l \in C04Leaf}}
           \cup {NWhen("k1", <<When("k2", <<l>>)>>) : l \in C04Leaf} \cup {CondC([c |-> "parentkey", key |-> "k1"], <<When("k2", <<l>>)>>) : l \in C04Leaf}
C04Items == << MapV(<<>>), MapV(<< <<"k1", Bool(TRUE)>> >>), MapV(<< <<"k1", Bool(FALSE)>>, <<"k2", Str("")>> >>), NilMap, Str("s"), NilV, MapV(<< <<"k2", Bool(TRUE)>> >>) >>
C04ItemData == [x \in 1..9 |-> LET d == Datas(<<"k1", "k2">>, {"true", "false", "absent"})[x] IN d \o << <<"l", ListV(C04Items)>> >>]
C04 == {With(El("div", pre \o <<d>>), Datas(<<"k1", "k2", "k3">>, {"true", "false"})) : pre \in C04Pre, d \in C04D2}
       \cup {With(El("div", pre \o <<d>> \o <<Txt("V")>>), Datas(<<"k1", "k2", "k3", "k4">>, {"true", "false"})) : pre \in C04Pre, d \in C04Deep}
       \cup {With(El("div", <<x, y>>), Datas(<<"k1", "k2">>, {"true", "false", "absent", "value"})) :
               x \in C04In \cup {NWhen("k2", <<Txt("N"), Att("a", "7")>>), When("k1", <<Txt("W"), Bat("h")>>)}, y \in C04In}
       \cup {With(El("div", <<x, y, Txt("-")>>), Datas(<<"k1">>, C04Kinds) \o Datas(<<"!k1", "k1">>, {"true", "false", "absent"})) :
               x \in {When("k1", <<l>>) : l \in C04Leaf}, y \in {NWhen("k1", <<l>>) : l \in C04L2} \cup {When("k1", <<NWhen("k1", <<l>>)>>) : l \in C04L2}}
       \cup {With(El("div", <<Att("a", "0"), x, y>>), Datas(<<"k1", "k2", "k3", "k4", "k5", "k6", "k7">>, {"true", "false"})) : x \in C04Chains, y \in {When("k7", <<Att("a", "9")>>)}}
       \* the data change while they are used
       \cup {Loose(With(El("div", <<Att("a", "0"), x, El("p", <<Att("a", "0"), x>>), Imp("m", <<OSet("k1", v), OSet("k2", w)>>, ""), x, El("q", <<Att("a", "0"), x, Imp("n", <<OSet("k1", w), ONodes(<<x>>)>>, ""), x>>)>>),
                         Datas(<<"k1", "k2", "k3">>, {"true", "false", "absent"}))) : x \in C04In \cup C04D2, v \in {Bool(TRUE), Bool(FALSE)}, w \in {Bool(TRUE), Bool(FALSE), Str("")}}
       \* in iterations, where an item may be the data
       \cup {Loose(With(El("ul", << Iter("key", "", "l", <<>>, <<El("li", <<Att("a", "0"), x>>), x, Iter("fn", "i", "", <<MapV(<<>>), Str("s")>>, <<x>>)>>), x >>), C04ItemData)) : x \in C04In \cup C04L1}
       \cup {Loose(With(El("ul", << Iter(s, "o", "l", C04Items, <<El("li", <<Att("a", "0"), x>>), When("k1", <<x>>), Iter("yield", "i", "", <<MapV(<<>>), Str("s")>>, <<El("li", <<x, Att("b", "0")>>)>>)>>), El("p", <<x>>) >>), C04ItemData)) : s \in {"key", "fn"}, x \in C04Nest}
       \cup Pick({}, {With(Void("hr", <<x>> \o pre \o <<d>>), Datas(<<"k1", "k2", "k3">>, {"true", "absent"})) : pre \in C04Pre, x \in C04In, d \in C04D2})

\* ---------------------------------------------------------------- C05: order
C05Alpha == {Att("a", "1"), AttV("b", <<Fn("f")>>), DatV("c", " ", <<Fn("g"), Str("x")>>), When("k1", <<AttV("d", <<Fn("h")>>), Att("e", "1")>>),
             When("k2", <<Att("e", "2"), Bat("q"), AttV("a", <<Fn("i")>>)>>), CondC([c |-> "const", b |-> TRUE], <<Dat("z", ",", <<"1">>), Dat("c", " ", <<"y">>)>>)}
C05Names == <<"a1", "a2", "B", "b", "Ba", "X-Y", "X-Z", "z", "zz", "m n", "M", "q1", "q10", "q9", "_", "0">>
C05Map(m) == HMap([x \in 1..m |-> <<C05Names[((x * 5) % 16) + 1], Fn("h" \o ToString(x))>>])
C05Maps == {<<C05Map(m)>> : m \in {2, 7, 8, 9, 12, 16}} \cup {<<C05Map(9), C05Map(3), C05Map(10)>>}
C05 == {Program(<<OpMake("root", nd)>> \o [x \in 1..2 |-> [OpRender("root", Datas(<<"k1", "k2">>, {"true"})[1], NilV) EXCEPT !.op = "render"]]) :
          nd \in {El("p", q) : q \in Seqs(C05Alpha, 2, Pick(3, 4))} \cup {El("p", <<Hdr(js, m)>>) : js \in BOOLEAN, m \in C05Maps}}

\* ---------------------------------------------------------------- C06: histories with sharing
C06First == {Dat("c", " ", <<"x">>), Coll(<<Dat("c", " ", <<"x">>), Att("a", "1"), Txt("t")>>), When("k1", <<Dat("c", " ", <<"x">>), Txt("t")>>),
             El("b", <<Dat("c", " ", <<"x">>), Txt("t")>>),
             Coll(<<NilN, Dat("c", " ", <<"x">>), NilN, Txt("t"), Att("a", "1")>>), DatV("c", " ", <<Str("x"), NilV, Key("k1"), NilV>>)}
C06Names == {PkgN(f, nm, <<Str("v"), Key("k1")>>) : f \in {"html.Data", "html.Aria", "htmx.On"}, nm \in {"n", "a-longer-name-than-that"}}
C06Nils == {El("p", <<NilN, Att("a", "1"), NilN, Txt("t")>>), Void("v", <<NilN, Dat("c", " ", <<"1">>)>>), When("k1", <<NilN, Att("a", "1"), NilN, Txt("t")>>), CondC([c |-> "nilfn"], <<NilN, Txt("t")>>),
            Iter("fn", "i", "", <<Str("1")>>, <<NilN, Txt("t"), NilN, Com("c")>>), Cc("c", <<NilN, Txt("t"), NilN>>), Imp("m", <<OStart("b", FALSE, <<NilN, Att("a", "1"), NilN>>), ONodes(<<NilN, Txt("t")>>)>>, ""),
            [k |-> "doc", lang |-> NilV, head |-> <<NilN, El("title", <<>>)>>, body |-> <<NilN, Txt("t")>>], Pkg("html.Div", <<NilN, Str("s"), Att("a", "1")>>), Pkg("html.Class", <<NilV, Str("s"), NilV>>),
            TxtV(CatV(<<NilV, Str("s")>>)), [k |-> "comment", vs |-> <<NilV, Str("s"), Key("k1")>>]}
C06Use(ids) == {El("p", <<Ref(a), Ref(b)>>) : a \in ids, b \in ids}
               \cup {El("p", <<Ref(a), Dat("c", " ", <<"n">>), Att("a", "2")>>) : a \in ids}
               \cup {Coll(<<Ref(a), Ref(b)>>) : a \in ids, b \in ids}
               \cup {Imp("m", <<OStart("q", FALSE, <<Ref(a), Ref(b)>>), OEnd>>, "") : a \in ids, b \in ids}
               \cup {El("p", <<Dat("c", " ", <<"o">>), When("k1", <<Ref(a)>>), Ref(b)>>) : a \in ids, b \in ids}
               \cup {TxtV([t |-> "node", n |-> Ref(a)]) : a \in ids}
\* nodes whose values are used as values of others, as the first of several
C06Valued == {DatV("c", " ", <<Str("x"), NilV, Key("k1"), NilV>>), TxtV(CatV(<<Str("t")>>)), [k |-> "text", vs |-> <<Str("t"), NilV, Str("u")>>], [k |-> "comment", vs |-> <<NilV, Str("c"), NilV, NilV>>],
              AttV("a", <<Str("1"), NilV>>), AttV("a", <<NilV, Key("k1"), Str("2"), Str("3")>>), Coll(<<Txt("p"), Att("q", "r"), NilN>>)}
C06NodeV(x) == [t |-> "node", n |-> x]
C06Firsts(x, s) == {[k |-> "text", vs |-> <<C06NodeV(x), Str(s)>>], [k |-> "comment", vs |-> <<C06NodeV(x), Str(s), Key("k1")>>], El("p", <<AttV("b", <<C06NodeV(x), Str(s)>>)>>),
                    El("p", <<DatV("e", ",", <<C06NodeV(x), Str(s)>>)>>), TxtV(CatV(<<C06NodeV(x), Str(s)>>)), Pkg("html.P", <<Pkg("html.Class", <<C06NodeV(x), Str(s)>>), C06NodeV(x)>>)}
\* containers in which a shared node is followed by one of the same kind (which a container might join)
C06AfterNo == 1..9
C06After(i, x, s) ==
  CASE i = 1 -> Coll(<<x, Txt(s)>>) [] i = 2 -> El("p", <<x, Txt(s)>>) [] i = 3 -> El("p", <<x, Com(s)>>) [] i = 4 -> When("k1", <<x, Txt(s), [k |-> "frag", vs |-> <<Str(s)>>]>>)
    [] i = 5 -> Iter("fn", "i", "", <<Str("1")>>, <<x, Txt(s)>>) [] i = 6 -> Imp("m", <<ONodes(<<x, Txt(s)>>), OStr(s)>>, "") [] i = 7 -> Cc("c", <<x, Txt(s), Com(s)>>)
    [] i = 8 -> El("p", <<x, Coll(<<Txt(s), Att("a", s)>>), Dat("c", " ", <<s>>)>>) [] i = 9 -> [k |-> "doc", lang |-> NilV, head |-> <<x>>, body |-> <<x, Txt(s)>>]
C06Ended == {[k |-> "text", vs |-> <<Str("t"), NilV, NilV, Str("u"), NilV>>], [k |-> "frag", vs |-> <<Str("t"), NilV, NilV>>], [k |-> "comment", vs |-> <<Str("t"), NilV, NilV>>], Coll(<<Txt("t"), NilN, NilN>>),
             TxtV(CatV(<<Str("t"), NilV, NilV>>)), El("b", <<Txt("t"), NilN, NilN>>), When("k1", <<Txt("t"), Dat("c", " ", <<"x">>), NilN, NilN>>)}
C06Show(ids) == FlattenSeq([x \in 1..Len(ids) |-> << OpRender(ids[x], << <<"k1", Bool(TRUE)>> >>, NilV), OpRender(ids[x], <<>>, NilV) >>])
C06Boom == Imp("m", <<OStart("i", FALSE, <<Dat("c", " ", <<"q">>)>>), OStr("s")>>, "panic")
C06Panic(x) == El("p", <<Dat("c", " ", <<"1">>), When("k1", <<Dat("c", " ", <<"2">>), Txt("w"), x>>), Txt("z")>>)
\* nodes of one kind whose names or texts begin alike, one declared after the other
C06Alike(s) == << Bat(s), Att(s, "v"), Att("n", s), Dat(s, " ", <<"v">>), Dat("c", " ", <<s, s>>), Txt(s), Com(s), Frag(s), El(s, <<>>), El(s, <<Txt(s)>>), Void(s, <<Att("n", "v")>>), Pi(s, "v"), Pi("n", s),
                  ElC("Element", s, <<>>), ElC("VoidElement", s, <<>>), [k |-> "battr", ctor |-> "BooleanAttribute", n |-> s], TxtV(Key(s)), When(s, <<Txt("w")>>), NWhen(s, <<Txt("w")>>), Iter("key", "i", s, <<>>, <<Txt("i")>>) >>
C06 == {Program(<<OpMake("n1", C06Alike(a)[i]), OpMake("n2", C06Alike(b)[i]), OpMake("n3", El("p", <<Ref("n1")>>)), OpMake("n4", El("p", <<Ref("n2")>>))>>
                \o << OpRender("n3", << <<"k", Str("K")>>, <<"kx", Bool(FALSE)>> >>, NilV), OpRender("n4", << <<"k", Str("K")>>, <<"kx", Bool(FALSE)>> >>, NilV), OpRender("n3", <<>>, NilV) >>) :
          i \in 1..Len(C06Alike("k")), a \in {"k", "kx", "kxx"}, b \in {"k", "kx", "kxx", "K", "j"}} \cup
       {Program(<<OpMake("n1", a), OpMake("n2", b)>> \o C06Show(<<"n1", "n2">>) \o <<OpMake("n3", u)>> \o C06Show(<<"n1", "n2", "n3", "n1">>)) :
          a \in C06First, b \in C06First, u \in C06Use({"n1", "n2"})}
       \cup {Program(<<OpMake("n1", a), OpMake("n2", u), OpMake("n3", w)>> \o C06Show(<<"n3", "n1", "n2", "n3">>)) :
               a \in C06First, u \in C06Use({"n1"}), w \in C06Use(Pick({"n2"}, {"n1", "n2"}))}
       \cup {Program(<<OpMake("n1", a), OpMake("n2", b)>> \o C06Show(<<"n1", "n2">>) \o <<OpMake("n3", El("p", <<Ref("n1"), Ref("n2"), c>>))>> \o C06Show(<<"n1", "n2", "n3", "n1">>)) :
               a \in C06Names, b \in C06Names, c \in C06Names}
       \cup UNION {{Program(<<OpMake("n1", a), OpMake("n2", u), OpMake("n3", w)>> \o C06Show(<<"n2", "n3", "n1", "n2">>)) : u \in C06Firsts(Ref("n1"), "U"), w \in C06Firsts(Ref("n1"), "W")} : a \in C06Valued}
       \cup {Program(<<OpMake("n1", a), OpMake("n2", C06After(i, Ref("n1"), "U")), OpMake("n3", C06After(i, Ref("n1"), "W"))>> \o C06Show(<<"n2", "n3", "n1">>)) : a \in C06Ended, i \in C06AfterNo}
       \* a callback that panics, under a condition that holds in every other rendering
       \cup {Program(<<OpMake("n1", x), OpMake("n2", El("q", <<Ref("n1"), Txt("a")>>))>> \o C06Show(<<"n1", "n2", "n1">>)) :
               x \in {C06Panic(y) : y \in {C06Boom, Own("own", "u", <<Txt("u")>>, "panic"), Coll(<<C06Boom>>), Iter("fn", "i", "", <<Str("1"), Str("2")>>, <<C06Boom>>),
                                          Iter("yield", "y", "", <<Str("1")>>, <<C06Boom>>), Cc("c", <<C06Boom>>), Imp("o", <<OStart("b", FALSE, <<>>), ONodes(<<C06Boom>>), OEnd>>, "")}}}
       \* delimited attributes that differ in the delimiter only
       \cup {Program(<<OpMake("n1", El("p", <<Dat("c", a, x), Dat("c", a, <<"1", "2">>)>>)), OpMake("n2", El("p", <<Dat("c", b, x), Dat("c", b, <<"1", "2">>)>>)),
                       OpMake("n3", El("p", <<Dat("c", b, <<"1", "2">>), Ref("n1"), Dat("c", b, x)>>))>> \o C06Show(<<"n1", "n2", "n3">>)) :
               a \in {" ", ",", "; "}, b \in {" ", ",", "; "}, x \in {<<>>, <<"1">>, <<"1", "2">>}}
       \cup {Program(<<OpMake("n1", a)>> \o C06Show(<<"n1", "n1">>) \o <<OpMake("n2", El("p", <<Ref("n1"), Ref("n1")>>))>> \o C06Show(<<"n2", "n1">>)) : a \in C06Nils}

\* ---------------------------------------------------------------- C09: failing callbacks
C09Fail(id) == Imp(id, <<OStart("i", FALSE, <<>>), OStr("s"), OEnd>>, "e" \o id)
C09Ok(id) == Imp(id, <<OStr("k")>>, "")
\* errors put into the context instead of returned
C09Put(id) == {Imp(id, <<OStr("s"), OErr("e" \o id), OStr("t")>>, ""), TxtV(FnM("f" \o id, "err", "e" \o id)),
               [Cc("c" \o id, <<Txt("u")>>) EXCEPT !.err = "e" \o id], [Iter("fn", "i" \o id, "", <<Str("1")>>, <<Txt("u")>>) EXCEPT !.src.err = "e" \o id],
               [Iter("yield", "y" \o id, "", <<Str("1")>>, <<Txt("u")>>) EXCEPT !.src.err = "e" \o id]}
C09Leaf(id) == {C09Fail(id), Own("own", "u", <<Txt("u")>>, "e" \o id), C09Ok(id), Txt("t" \o id)}
C09Wrap(id, x) == {El("p", <<Txt("("), x, Txt(")")>>), Coll(<<x, Com("z")>>), When("k1", <<x, Txt("w")>>),
                   Iter("fn", "i" \o id, "", <<Str("1"), Str("2")>>, <<Txt("n"), x>>), Iter("yield", "y" \o id, "", <<Str("1"), Str("2")>>, <<x>>),
                   Cc("c" \o id, <<x, Txt("o")>>), Imp("o" \o id, <<OStart("b", FALSE, <<>>), ONodes(<<x, Txt("m")>>), OStr("aft"), OEnd>>, ""),
                   Imp("r" \o id, <<ONodes(<<x>>)>>, "er" \o id),
                   Imp("q" \o id, <<OStart("a", FALSE, <<>>), OStart("b", FALSE, <<>>), ONodes(<<x>>)>>, "er" \o id)}
C09W(id) == C09Leaf(id) \cup UNION {C09Wrap(id, x) : x \in C09Leaf(id)}
C09WW(id) == UNION {C09Wrap(id, x) : x \in C09W(id)}
C09Ctx == << << <<"k1", Bool(TRUE)>> >> >>
C09 == {With(El("div", <<x, Txt("-"), y, Com("end")>>), C09Ctx) : x \in C09W("1"), y \in Pick(C09Leaf("2"), C09W("2"))}
       \cup {With(El("div", <<x, Com("end")>>), C09Ctx) : x \in UNION {C09Wrap("3", w) : w \in C09W("1")}}
       \cup {With(x, C09Ctx) : x \in C09W("1")}
       \cup {With(El("div", <<y, Com("end")>>), C09Ctx) : y \in C09Put("1") \cup UNION {C09Wrap("3", w) : w \in UNION {C09Wrap("2", x) : x \in C09Put("1")}}}
       \cup {With(El("div", <<x, y>>), C09Ctx) : x \in C09Put("1"), y \in {C09Fail("2")} \cup C09Put("2")}
       \* what a callback that fails changes may be what the conditions around it look at
       \cup {With(El("div", <<w, Com("end")>>), C09Ctx) : w \in UNION {{y} \cup C09Wrap("3", y) : y \in {When("k1", <<x>>) : x \in
               UNION {{z} \cup C09Wrap("2", z) : z \in {Imp("m", <<OStr("s"), OSet("k1", v)>>, e) : v \in {Bool(FALSE), Str("s")}, e \in {"", "e1"}} \cup {Imp("m", <<OSet("k1", Bool(FALSE)), OErr("e2")>>, "")}}}}}
       \* errors in the middle of an iteration
       \cup {With(El("div", <<Txt("b"), x, Com("end")>>), C09Ctx) : x \in UNION {{y} \cup C09Wrap("3", y) :
               y \in {YieldB("yield", "y", "", [j \in 1..m |-> Str("i")], <<TxtV(Key(".")), El("u", <<z>>)>>, b, "eY", k) : m \in 0..2, k \in 0..3, b \in {"", ","}, z \in {Txt("u"), C09Fail("1")}}}}
       \cup {With(El("div", <<y, Com("end")>>), C09Ctx) : y \in UNION {UNION {C09Wrap("3", w) : w \in C09Wrap("1", Imp("k", <<OStr("s")>>, e))} : e \in {"EOF", "canceled", "short", "again", "closed"}}}

\* ---------------------------------------------------------------- C08: failing writers
C08Leaf == {Txt("t<"), Com("c"), El("b", <<Att("i", "1"), Bat("h"), Dat("c", " ", <<"x", "y">>), Txt("u")>>), Void("v", <<AttV("a", <<Fn("f"), Key("k1"), Str("z")>>)>>),
            TxtV([t |-> "cat", vs |-> <<Fn("g"), Str("&"), Key("k2")>>]), TxtV([t |-> "raw", s |-> "R"]), Pi("X", "p"), Frag("f"),
            El("c", <<Att("a", "0"), When("k1", <<Dat("d", ",", <<"x">>), AttV("e", <<Fn("q")>>), Att("a", "1"), Txt("w")>>), Dat("d", ",", <<"y">>)>>),
            C09Fail("8"), Imp("m", <<OStart("i", FALSE, <<Att("a", "1"), DatV("c", " ", <<Fn("e"), Str("y")>>)>>), OStr("s"), ORaw("r"), OEndAll, OStart("j", TRUE, <<>>), OEnd>>, "")}
C08Wrap(x) == {El("p", <<Txt("("), x, Txt(")")>>), Coll(<<x, Com("z")>>), When("k1", <<x, Txt("w")>>),
               Iter("fn", "i", "", <<Str("1"), MapV(<<>>)>>, <<Txt("n"), x>>), Iter("yield", "y", "", <<Str("1"), Str("2")>>, <<x, Txt("o")>>),
               Iter("key", "", "l", <<>>, <<x>>), Cc("c", <<x, Txt("o")>>),
               Imp("o", <<OStart("b", FALSE, <<>>), ONodes(<<x, Txt("m")>>), OStr("aft"), OEnd>>, ""),
               Imp("r", <<ONodes(<<x>>)>>, "er"),
               [k |-> "doc", lang |-> Str("en"), head |-> <<El("title", <<Txt("T")>>)>>, body |-> <<x>>]}
C08Data == << <<"k1", Bool(TRUE)>>, <<"k2", Str("v<")>>, <<"l", ListV(<<Str("1"), MapV(<< <<"k2", Str("3")>> >>)>>)>> >>
C08P(nd) == Program(<<OpMake("root", nd), OpRender("root", C08Data, Str("c"))>>)
\* many elements left open, closed at once or by the end
C08Starts(m) == [x \in 1..m |-> OStart("o" \o ToString(x), FALSE, <<>>)]
C08Open == {Imp("m", C08Starts(m) \o e, r) : m \in {2, 3, 4, 9}, e \in {<<OEndAll, OStr("t")>>, <<>>, <<OStr("t"), OEnd, OEndAll>>, <<OEndAll, OStart("p", FALSE, <<>>)>>}, r \in {"", "e1"}}
C08W(S) == UNION {C08Wrap(x) : x \in S}
C08 == {C08P(x) : x \in C08Leaf \cup C08W(C08Leaf)}
       \cup {C08P(x) : x \in C08Open \cup C08W(C08Open)}
       \cup {C08P(x) : x \in C08W(C08W(Pick({Txt("t"), C09Fail("7")}, C08Leaf)))}
       \cup {C08P(Coll(<<x, y>>)) : x \in C08W(Pick({C09Fail("6")}, {C09Fail("6"), Txt("a")})), y \in C08W({C09Fail("5")})}

\* ---------------------------------------------------------------- C10: iteration
C10Maps == {[t |-> "list", ty |-> "map", vs |-> q] : q \in Seqs({NilMap, MapV(<<>>), MapV(<< <<"k", Str("m1")>> >>)}, 1, Pick(2, 4))}
C10Items == {NilMap, Str("s1"), Str("s2"), MapV(<< <<"k", Str("m1")>> >>), MapV(<< <<"j", Str("m2")>> >>), NilV, [t |-> "lit", ty |-> "int", s |-> "7"]}
C10Probe(p) == <<Txt("["), TxtV(Key(".")), Txt(","), TxtV(Key("k")), Txt(","), TxtV(FnM(p, "parent", "")), Txt("]")>>
C10Src(items) == {Iter("fn", "i", "", items, C10Probe("p")), Iter("yield", "i", "", items, C10Probe("p")), Iter("key", "i", "list", <<>>, C10Probe("p") \o <<Att("ignored", "1")>>)}
C10Data(items) == << <<"k", Str("outer")>>, <<"list", ListV(items)>> >>
C10Prog(nd, items) == Program(<<OpMake("root", nd), OpRender("root", C10Data(items), Str("cargo"))>>)
C10 == {Program(<<OpMake("root", El("ul", <<Iter("key", "", "list", <<>>, C10Probe("p"))>> \o C10Probe("q"))), OpRender("root", << <<"k", Str("outer")>>, <<"list", l>> >>, Str("c"))>>) : l \in C10Maps}
       \cup {C10Prog(El("ul", <<it>> \o C10Probe("q")), items) : items \in Seqs(C10Items, 0, Pick(2, 3)), it \in UNION {C10Src(j) : j \in {<<>>}}}
       \cup UNION {{C10Prog(El("ul", <<it>> \o C10Probe("q")), items) : it \in C10Src(items)} : items \in Seqs(C10Items, 0, Pick(2, 3))}
       \cup UNION {{C10Prog(Coll(<<Iter(s, "o", "", items, C10Probe("a") \o <<it>> \o C10Probe("b"))>> \o C10Probe("q")), items)
                    : s \in {"fn", "yield"}, it \in C10Src(<<Str("in"), MapV(<< <<"k", Str("min")>> >>)>>)} : items \in Seqs(C10Items, 1, 2)}
       \cup {Loose(C10Prog(El("ul", <<Iter(s, "o", "list", items, C10Probe("a") \o <<Imp("m", <<OSet("k", Key2)>>, "")>> \o C10Probe("b") \o <<Iter(s2, "in", "list", <<Str("x"), MapV(<< <<"k", Str("min")>> >>)>>, C10Probe("c") \o <<Imp("n", <<OSet("list", ListV(<<Str("new")>>))>>, "")>>)>>)>> \o C10Probe("q")), items)) :
               s \in {"fn", "yield", "key", "fnkey", "yieldkey"}, s2 \in {"fn", "yield", "key", "fnkey", "yieldkey"}, Key2 \in {Str("set")}, items \in Seqs({Str("s1"), MapV(<< <<"k", Str("m1")>> >>), MapV(<< <<"j", Str("m2")>> >>)}, 1, 2)}
       \* the same items again and again, nils at the ends
       \cup {C10Prog(El("ul", <<it>>), items) : it \in {Iter("key", "i", "list", <<>>, C10Probe("p")), Iter("fnkey", "i", "list", <<>>, C10Probe("p")), Iter("yieldkey", "i", "list", <<>>, C10Probe("p"))},
               items \in {q \in Seqs({NilV, Str("s1"), Str("")}, 3, Pick(4, 5)) : Cardinality(Range(q)) < 3}}
       \* callbacks that write between the items they yield - of which the maps are one map, filled anew each time
       \cup {C10Prog(El("ul", <<YieldB(s, "i", "list", items, C10Probe("p"), "|", "", 0)>> \o C10Probe("q")), items) : s \in {"yield", "yieldkey"}, items \in Seqs(C10Items, 0, Pick(2, 3))}
       \cup {C10Prog(El("ul", <<YieldB(s, "o", "list", items, C10Probe("a") \o <<YieldB(s2, "n", "list", <<Str("in"), MapV(<< <<"k", Str("min")>> >>), MapV(<< <<"j", Str("x")>> >>)>>, C10Probe("c"), b, "", 0)>>, "|", "", 0)>> \o C10Probe("q")), items) :
               s \in {"yield", "yieldkey"}, s2 \in {"yield", "yieldkey"}, b \in {"", ", "}, items \in Seqs({Str("s1"), MapV(<< <<"k", Str("m1")>> >>), MapV(<< <<"j", Str("m2")>> >>)}, 1, 2)}
       \* iterations after (and around) ones that failed
       \cup {Loose(Program(<<OpMake("bad", El("u", <<Iter(s, "x", "list", <<Str("1"), Str("2")>>, C10Probe("x") \o <<Iter(s2, "w", "list", <<Str("5"), Str("6")>>, C10Probe("w") \o <<Imp("m", <<>>, "e1")>>)>>)>>)),
                            OpMake("root", El("ul", <<Iter(s2, "o", "list", items, C10Probe("a") \o <<Iter(s, "i", "list", <<Str("in"), Str("ne")>>, C10Probe("p"))>> \o C10Probe("b"))>>)),
                            OpRender("root", C10Data(items), Str("c")), OpRender("bad", C10Data(items), Str("c")), OpRender("root", C10Data(items), Str("c")), OpRender("bad", C10Data(items), Str("d")), OpRender("root", C10Data(items), NilV)>>)) :
               s \in {"fn", "yield", "key", "fnkey", "yieldkey"}, s2 \in {"fn", "yield", "key", "fnkey", "yieldkey"}, items \in {<<Str("s1"), Str("s2")>>, <<MapV(<< <<"k", Str("m1")>> >>), Str("s2")>>}}
       \cup {Program(<<OpMake("root", El("ul", <<Iter("key", "", "list", <<>>, C10Probe("p"))>> \o C10Probe("q"))), OpRender("root", d, Str("c"))>>) :
               d \in {<<>>, << <<"list", Str("text")>> >>, << <<"list", NilV>> >>, << <<"list", MapV(<< <<"k", Str("z")>> >>)>> >>,
                      << <<"list", [t |-> "list", ty |-> "string", vs |-> <<Str("x"), Str("y"), Str("z")>>]>> >>,
                      << <<"list", [t |-> "list", ty |-> "map", vs |-> <<MapV(<< <<"k", Str("x")>> >>), MapV(<< <<"j", Str("y")>> >>)>>]>> >>,
                      << <<"list", [t |-> "list", ty |-> "int", vs |-> <<[t |-> "lit", ty |-> "int", s |-> "3"], [t |-> "lit", ty |-> "int", s |-> "-4"]>>]>> >>}}

\* ---------------------------------------------------------------- C11: imperative
C11Alpha1 == OStart("a", FALSE, <<>>)
C11Alpha == {OStart("a", FALSE, <<>>), OStart("b", FALSE, <<Dat("c", " ", <<"x">>), Att("i", "1"), Dat("c", " ", <<"y">>), Txt("no"), Att("i", "2"), NilN>>),
             OStart("br", TRUE, <<>>), OStart("hr", FALSE, <<>>), OStart("v", TRUE, <<>>), OEnd, OEndAll, OStr("<s>"), ORaw("r"), ONodes(<<Att("ign", "1"), El("n", <<Txt("t")>>), NilN>>)}
C11As == {Att("i", "1"), Bat("i"), Dat("c", " ", <<"x">>), Bat("h"), Dat("i", ",", <<"y">>)}
C11Voids == {OStart(n, v, <<>>) : n \in {"br", "hr", "col", "p", "HR"}, v \in BOOLEAN}
C11 == {One(Imp("m", q, "")) : q \in Seqs(C11Alpha, 0, 4)}
       \cup {One(Imp("m", <<OStart("p", v, q), OEnd>>, "")) : v \in BOOLEAN, q \in Seqs(C11As, 0, Pick(4, 5))}
       \cup (IF Thorough THEN {One(Imp("m", q, "")) : q \in Seqs({C11Alpha1, OStart("b", FALSE, <<Att("i", "1")>>), OStart("br", TRUE, <<>>), OEnd, OEndAll, OStr("s"), ONodes(<<El("n", <<>>)>>)}, 5, 6)} ELSE {})
       \cup {One(Imp("m", <<OStr("("), p, OStr("x"), q, OStr("y"), OEnd, OStr("z"), OEnd, OStr("!")>>, "")) : p \in C11Voids, q \in C11Voids}
       \cup {One(El("w", <<Imp("m", p, ""), Imp("n", q, "")>>)) : p \in Seqs({OStart("a", FALSE, <<>>), OEnd, OEndAll, OStr("s")}, 0, 2), q \in Seqs({OStart("b", FALSE, <<>>), OEnd, OEndAll}, 0, 2)}
       \cup {One(Imp("m", p \o <<ONodes(<<Imp("n", q, "")>>)>> \o p, "")) : p \in Seqs({OStart("a", FALSE, <<>>), OEnd, OEndAll}, 0, 2), q \in Seqs({OStart("b", FALSE, <<>>), OEnd, OEndAll}, 0, 2)}

\* ---------------------------------------------------------------- C13: evaluation of dynamic parts
C13F(id) == FnM(id, "count", "")
C13Part(id) == {YieldB("yield", "b" \o id, "", <<Str("1"), MapV(<< <<"k2", Str("m")>> >>), MapV(<< <<"k1", Str("n")>> >>)>>, <<TxtV(C13F(id)), TxtV(Key("k2"))>>, ";", "", 0),
                TxtV(C13F(id)), El("p", <<AttV("a", <<C13F(id), Str(","), C13F(id \o "x")>>), C13F(id \o "y")>>), ComV(C13F(id)),
                Iter("fn", "i" \o id, "", <<Str("1"), Str("2")>>, <<TxtV(C13F(id)), TxtV(Key("."))>>),
                Iter("yield", "i" \o id, "", <<Str("1"), Str("2"), Str("3")>>, <<TxtV(C13F(id))>>),
                Cc("c" \o id, <<TxtV(C13F(id))>>), Imp("m" \o id, <<ONodes(<<TxtV(C13F(id))>>), OStart("b", FALSE, <<AttV("a", <<C13F(id \o "z")>>)>>), OEndAll>>, ""),
                When("k1", <<TxtV(C13F(id))>>), El("p", <<When("k1", <<AttV("a", <<C13F(id)>>)>>), AttV("a", <<C13F(id \o "w")>>)>>),
                TxtV([t |-> "cat", vs |-> <<C13F(id), C13F(id \o "v")>>]), TxtV(Key("k1")), TxtV(Key("k2")),
                El("p", <<DatV("d", " ", <<C13F(id), Key("k2"), C13F(id)>>)>>)}
C13Set == Imp("s", <<OSet("k2", Str("new")), ONodes(<<TxtV(Key("k2"))>>), OSet("k1", Bool(FALSE))>>, "")
\* what is given back may be empty or nil, also at the start
C13Items == {NilV, Str(""), Str("1"), Bool(FALSE), MapV(<<>>)}
C13Given == {TxtV(C13F("f")), NilN, TxtV(Str("")), Att("a", "1"), Coll(<<>>), El("p", <<C13F("g")>>)}
C13Empty(id) == FnM(id, "const", "")
C13Back == {With(El("div", <<Iter(s, "i", "list", items, <<TxtV(C13F("f")), Txt(".")>>), TxtV(C13F("g"))>>), << << <<"list", ListV(items)>> >>, <<>> >>) :
              s \in {"fn", "fnkey", "yield", "yieldkey", "key"}, items \in Seqs(C13Items, 0, Pick(2, 3))}
       \cup {With(El("div", <<Cc("c", ns), TxtV(C13F("h")), Cc("d", ns)>>), << <<>>, <<>> >>) : ns \in Seqs(C13Given, 0, Pick(2, 3))}
       \cup {With(El("div", <<Imp("m", <<ONodes(ns), OStr("x")>>, ""), Imp("n", <<ONodes(<<>>)>>, "")>>), << <<>>, <<>> >>) : ns \in Seqs(C13Given, 0, 2)}
       \cup {With(El("div", <<a, El("p", <<AttV("a", <<C13Empty("s"), x>>), DatV("d", " ", <<C13Empty("t"), x, C13Empty("u")>>), C13Empty("v"), x>>), ComV(C13Empty("w"))>>), << <<>>, <<>> >>) :
              a \in {TxtV(C13Empty("r")), Cc("c", <<TxtV(C13Empty("q"))>>), Txt("t")}, x \in {C13F("x"), C13Empty("y"), Str("")}}
C13 == C13Back \cup {Loose(With(El("div", <<x, C13Set, y, x>>), << << <<"k1", Bool(TRUE)>>, <<"k2", Str("v")>> >>, << <<"k2", Str("w")>> >> >>)) : x \in C13Part("1"), y \in C13Part("2")} \cup
       {Program(<<OpMake("root", El("div", <<x, y>>)), OpRender("root", << <<"k1", Bool(TRUE)>>, <<"k2", Str("v")>> >>, Str("c1")),
                  OpRender("root", << <<"k2", Str("w")>> >>, Str("c2")), OpRender("root", << <<"k1", Str("yes")>> >>, NilV)>>) :
          x \in C13Part("1"), y \in C13Part("2")}

\* ---------------------------------------------------------------- C14: values in every position
RECURSIVE Deep(_, _)
Deep(d, v) == IF d = 0 THEN v ELSE [t |-> "fany", v |-> Deep(d - 1, v)]
C14Values == {[t |-> "strg", s |-> x] : x \in {"", "0", "a", "b", "c", "d", "e", "f", "g", "h", "S", "<&>"}} \cup {Bool(TRUE), Bool(FALSE), NilV, Str("x y"), Str(""), Deep(3, Str("d")), Deep(4, Bool(TRUE)), Deep(5, [t |-> "raw", s |-> "dr"]), Deep(6, [t |-> "strg", s |-> "ds"]), Deep(12, Str("<")), Deep(7, NilV), [t |-> "raw", s |-> "R"],
              [t |-> "fany", v |-> [t |-> "fany", v |-> [t |-> "lit", ty |-> "int8", s |-> "-5"]]], [t |-> "fany", v |-> NilV],
              [t |-> "fany", v |-> [t |-> "raw", s |-> "fr"]], [t |-> "fany", v |-> [t |-> "strg", s |-> "fs"]], [t |-> "fany", v |-> Bool(FALSE)]}
   \cup {[t |-> "other", s |-> o] : o \in {"struct", "ptr", "strptr", "chan", "namedint", "strings", "mapss", "complex", "array", "uintptr", "func",
        "namedstring", "html", "namedbool", "boolptr", "nilptr", "bytearray", "namedbytes", "runes", "anys", "nilfunc", "funcs", "ctxfunc", "error", "buffer"}}
   \cup {[t |-> "lit", ty |-> p[1], s |-> p[2]] : p \in
        {<<"int", "0">>, <<"int", "-1">>, <<"int8", "-128">>, <<"int8", "127">>, <<"int16", "-32768">>, <<"int16", "32767">>,
         <<"int32", "-2147483648">>, <<"int32", "2147483647">>, <<"int64", "-9223372036854775808">>, <<"int64", "9223372036854775807">>,
         <<"int", "9223372036854775807">>, <<"uint", "18446744073709551615">>, <<"uint8", "255">>, <<"uint16", "65535">>,
         <<"uint32", "4294967295">>, <<"uint64", "18446744073709551615">>, <<"uint64", "9223372036854775808">>, <<"float32", "1.5">>, <<"float64", "-0.25">>, <<"float64", "100">>}}
C14Program(v) ==
  Program(<< OpMake("root", El("div", << v, AttV("a", <<v>>), DatV("d", "|", <<Str("x"), v, v>>), TxtV(v), ComV(v),
                 TxtV([t |-> "cat", vs |-> <<v, Str("/"), v>>]), TxtV([t |-> "val", v |-> v]), El("k", <<TxtV(Key("k")), AttV("k", <<Key("k")>>)>>), El("c", <<TxtV(Key("."))>>),
                 Iter("fn", "i", "", <<v, v>>, <<El("i", <<TxtV(Key("."))>>)>>), Iter("key", "", "list", <<>>, <<El("l", <<TxtV(Key("."))>>)>>),
                 Iter("fn", "i", "", <<MapV(<< <<"k", v>> >>)>>, <<TxtV(Key("k"))>>), TxtV([t |-> "node", n |-> TxtV(v)]) >>)),
               OpRender("root", << <<"k", v>>, <<"list", ListV(<<v, v>>)>> >>, v) >>)
C14Floats == {<<"float64", x>> : x \in {"0.1", "0.30000000000000004", "1e+21", "1e-07", "1.2345678912345679e+08", "5e-324", "1.7976931348623157e+308", "-2.2250738585072014e-308", "NaN", "+Inf", "-Inf", "-0",
                                               "9.007199254740992e+15", "0.3333333333333333", "1e+20", "1.6777217e+07", "1e+08", "3.0000001"}}
             \cup {<<"float32", x>> : x \in {"0.1", "0.33333334", "1e+10", "1e-07", "3.4028235e+38", "1e-45", "1.6777216e+07", "-8.388609e+06", "NaN", "+Inf", "-Inf", "-0", "1.0000001", "123456.79"}}
\* floats may be written in any form that reads back: the harness writes them in the shortest form before comparing
C14FProgram(v) ==
  Program(<< OpMake("root", El("div", << v, Str("; "), AttV("a", <<v>>), DatV("d", "|", <<Str("x"), v, v>>), TxtV(v), ComV(v),
                 TxtV([t |-> "cat", vs |-> <<v, Str("/"), v>>]), Str("; "), TxtV([t |-> "val", v |-> v]), El("k", <<TxtV(Key("k")), AttV("k", <<Key("k")>>)>>), El("c", <<TxtV(Key("."))>>),
                 Iter("fn", "i", "", <<v, v>>, <<El("i", <<TxtV(Key("."))>>)>>), Iter("key", "", "list", <<>>, <<El("l", <<TxtV(Key("."))>>)>>),
                 Iter("fn", "i", "", <<MapV(<< <<"k", v>> >>)>>, <<TxtV(Key("k"))>>), Str("; "), TxtV([t |-> "node", n |-> TxtV(v)]) >>)),
               OpRender("root", << <<"k", v>>, <<"list", ListV(<<v, v>>)>> >>, v) >>)
C14 == {C14Program(v) : v \in C14Values}
       \cup {[floats |-> p[1]] @@ C14FProgram([t |-> "lit", ty |-> p[1], s |-> p[2]]) : p \in C14Floats}

\* ---------------------------------------------------------------- C16: names and missing nodes
Bytes(bs) == StrOf([x \in 1..Len(bs) |-> SubSeq(Sp.all, bs[x] + 1, bs[x] + 1)])
\* letters and digits elsewhere: e acute, long s, Kelvin sign, Cyrillic a, Arabic one, combining acute, no-break space, line separator
C16Foreign == {Bytes(b) : b \in {<<195, 169>>, <<197, 191>>, <<226, 132, 170>>, <<208, 176>>, <<217, 161>>, <<204, 129>>, <<194, 160>>, <<226, 128, 168>>, <<239, 188, 161>>, <<233>>, <<195>>, <<13>>, <<9>>, <<0>>, <<127>>}}
               \cup {"@", "[", "`", "{", "}", ",", ";", "!", "'", ">", "&", "+", "*", "$", "\\", "|", "^", "~", "%", "?", "#", "("}
C16Chars == {"a", "Z", "5", ".", "_", "-", ":", " ", "<", "=", "\"", "/", "\n"}
C16Names == {StrOf(q) : q \in Seqs(C16Chars, 0, Pick(2, 3))} \cup C16Foreign \cup {"a" \o x : x \in C16Foreign} \cup {x \o "a" : x \in C16Foreign} \cup {"ab" \o x \o "1c" : x \in C16Foreign}
            \cup {"a-b.c:d_e1", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "x0123456789", "a--", "a..b", "a::", "a__", "xmlns:xlink"}
\* names that are the same up to there
C16At(x) == ((x - 1) % 16) + 1
C16Long(m, z) == StrOf([x \in 1..m |-> SubSeq("abcdefgh-_.:0123", C16At(x), C16At(x))]) \o z
C16Ctors(nm) == << ElC("Element", nm, <<Txt("x")>>), ElC("VoidElement", nm, <<>>), El("p", <<[k |-> "attr", ctor |-> "Attribute", n |-> nm, vs |-> <<Str("v")>>]>>),
                  El("p", <<[k |-> "battr", ctor |-> "BooleanAttribute", n |-> nm]>>), El("p", <<[k |-> "dattr", ctor |-> "DelimitedAttribute", n |-> nm, d |-> " ", vs |-> <<Str("v")>>]>>) >>
C16Nil == {El("p", <<NilN, Att("a", "1"), NilN, Txt("t"), NilN>>), Void("v", <<NilN, Att("a", "1"), NilN>>), Coll(<<NilN, Txt("t"), NilN, Att("a", "1")>>),
           When("k1", <<NilN, Att("a", "1"), Txt("t"), NilN>>), NWhen("k2", <<NilN, Txt("t"), NilN>>), CondC([c |-> "nilfn"], <<NilN, Txt("t"), NilN>>),
           Iter("fn", "i", "", <<Str("1"), Str("2")>>, <<NilN, Txt("t"), NilN>>), Iter("yield", "i", "", <<Str("1"), Str("2")>>, <<NilN, Txt("t"), NilN>>),
           Iter("key", "", "k3", <<>>, <<NilN, Txt("t"), NilN>>), Cc("c", <<NilN, Txt("t"), NilN>>), Imp("m", <<ONodes(<<NilN, Txt("t"), NilN>>), OStart("b", FALSE, <<NilN, Att("a", "1"), NilN>>), OEnd>>, ""),
           [k |-> "doc", lang |-> NilV, head |-> <<NilN, El("title", <<NilN>>)>>, body |-> <<NilN, Txt("t"), NilN>>],
           Cc("nil", <<>>), Imp("nil", <<>>, ""), CondC([c |-> "nilfn"], <<NilN>>)}
C16Data == << << <<"k1", Bool(TRUE)>>, <<"k3", ListV(<<Str("1"), NilV>>)>> >> >>
C16 == {Program(FlattenSeq([x \in 1..5 |-> << OpMake("r" \o ToString(x), Coll(<<Txt("("), C16Ctors(nm)[x], Txt(")")>>)), OpRender("r" \o ToString(x), <<>>, NilV) >>])) : nm \in C16Names}
       \cup {Program(FlattenSeq([x \in 1..5 |-> LET v == C16Ctors(C16Long(m, "c"))[x] w == C16Ctors(C16Long(m, b))[x] id == ToString(x) IN
                << OpMake("v" \o id, Coll(<<Txt("("), v, Txt(")")>>)), OpMake("w" \o id, Coll(<<Txt("("), w, Txt(")")>>)), OpRender("v" \o id, <<>>, NilV), OpRender("w" \o id, <<>>, NilV) >>])) :
               m \in {1, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 255}, b \in {" ", "c>", ">c", "c\n"}}
       \cup {With(x, C16Data) : x \in C16Nil}
       \cup {With(El("div", <<x, y>>), C16Data) : x \in C16Nil, y \in C16Nil}
       \cup {With(Coll(<<x>>), C16Data) : x \in C16Nil}
       \cup {With(When("k1", <<x, NilN>>), C16Data) : x \in C16Nil}
       \cup {With(Imp("w", <<ONodes(<<x, NilN>>)>>, ""), C16Data) : x \in C16Nil}
       \cup {With(Iter("fn", "o", "", <<Str("1"), MapV(<<>>)>>, <<NilN, x, NilN>>), C16Data) : x \in C16Nil}

\* ---------------------------------------------------------------- C07: concurrent renderings
\* a template of a few parts of every kind, rendered with two (three) different contexts
C07Parts ==
  << El("p", <<AttV("a", <<Key("k")>>), TxtV(Key("k"))>>),
     El("q", <<DatV("class", " ", <<Str("s"), Key("k")>>), When("f", <<Dat("class", " ", <<"w">>), Att("b", "1")>>)>>),
     When("f", <<TxtV(Key("k"))>>), NWhen("f", <<El("n", <<TxtV(FnM("g", "data", "k"))>>)>>),
     Iter("fnkey", "i", "l", <<>>, <<El("i", <<TxtV(Key(".")), AttV("t", <<FnM("h", "cargo", "")>>)>>)>>),
     Iter("key", "", "l", <<>>, <<TxtV(Key("."))>>), Iter("yieldkey", "y", "l", <<>>, <<El("y", <<TxtV(FnM("p", "parent", ""))>>)>>),
     Cc("c", <<TxtV(Key("k"))>>), Cc("ce", <<Txt(","), El("u", <<Att("c", "1"), Dat("class", " ", <<"x">>), When("k", <<Dat("class", " ", <<"y">>)>>), Txt("-"), Pkg("html.B", <<Pkg("css.Width", <<PV("css.Px", <<Str("1")>>)>>), Str(";")>>)>>), ComV(Str("c"))>>), ComV(Key("k")), TxtV([t |-> "cat", vs |-> <<Key("k"), Str("+"), Key(".")>>]),
     Imp("m", <<OStart("b", FALSE, <<AttV("u", <<Key("k")>>)>>), OStr("x"), ONodes(<<TxtV(Key("k"))>>)>>, ""),
     Imp("o", <<OStart("d", FALSE, <<>>), OStr("y")>>, "E1"), Bat("z"), Ref("s"),
     El("x", <<DatV("class", " ", <<Str("s"), NilV, Key("k"), NilV>>), When("k", <<DatV("class", " ", <<Key("k"), Str("w")>>), Att("b", "1"), AttV("b", <<Key("k")>>), Coll(<<DatV("n", ",", <<Key("k")>>)>>)>>)>>),
     Pkg("html.A", <<Pkg("css.Width", <<PV("css.Px", <<Key("k")>>)>>), When("k", <<Pkg("css.Top", <<Key("k")>>), Pkg("htmx.Vars", <<VarV("v", Key("k"))>>)>>), Hdr(TRUE, <<HMap(<< <<"A", Key("k")>> >>)>>), PkgN("html.Data", "d", <<Key("k")>>)>>),
     [k |-> "doc", lang |-> Key("k"), head |-> <<El("title", <<TxtV(Key("k"))>>)>>, body |-> <<TxtV([t |-> "nbsp", count |-> 3, n |-> TRUE]), TxtV([t |-> "node", n |-> TxtV(Key("k"))])>>] >>
C07Data == << << <<"f", Bool(TRUE)>>, <<"k", Str("one")>>, <<"l", ListV(<<Str("1"), Str("2")>>)>> >>,
              << <<"k", Str("two")>>, <<"l", ListV(<<Str("a")>>)>> >>,
              << <<"f", Bool(FALSE)>>, <<"k", Str("three")>>, <<"l", ListV(<<Str("z")>>)>> >>,
              << <<"f", Bool(TRUE)>>, <<"k", Str("four")>>, <<"l", ListV(<<Str("p"), Str("q")>>)>> >> >>
C07Make(ps) == << OpMake("s", El("s", <<AttV("c", <<Key("k")>>)>>)), OpMake("root", El("div", ps)) >>
C07Two(ps) == Program(C07Make(ps) \o << OpRender("root", C07Data[1], Str("C1")), OpRender("root", C07Data[2], Str("C2")) >>)
C07Three(ps) == Program(C07Make(ps) \o << OpRender("root", C07Data[1], Str("C1")), OpRender("root", C07Data[2], Str("C2")), OpRender("root", C07Data[3], NilV) >>)
C07Same(ps) == Program(C07Make(ps) \o << OpRender("root", C07Data[1], Str("C1")), OpRender("root", C07Data[4], Str("C2")) >>)
C07 == {C07Two(<<C07Parts[x]>>) : x \in 1..Len(C07Parts)} \cup {C07Same(<<C07Parts[x]>>) : x \in 1..Len(C07Parts)}
       \cup {C07Two(<<C07Parts[x], C07Parts[y]>>) : x \in 1..Len(C07Parts), y \in (IF Thorough THEN 1..Len(C07Parts) ELSE {2, 10})}
       \cup {C07Three(<<C07Parts[x]>>) : x \in (IF Thorough THEN 1..Len(C07Parts) ELSE {2, 5, 7})}

\* ---------------------------------------------------------------- C12: wrapped html/templates
SLit(v) == [s |-> "lit", v |-> v]
SMark(nm) == [s |-> "mark", n |-> nm, via |-> ""]
SIf(k, a, b) == [s |-> "if", key |-> k, a |-> a, b |-> b]
SRange(k, a) == [s |-> "range", key |-> k, a |-> a]
SCall(nm) == [s |-> "call", n |-> nm]
C12Leaf == {<<SMark("t")>>, <<SMark("e")>>, <<SLit("<i>x</i>")>>, <<SLit("<p "), SMark("a"), SLit(" "), SMark("d"), SLit(">y</p>")>>,
            <<SLit("<p title='"), SMark("t"), SLit("'>.</p>")>>}
C12Segs == C12Leaf \cup {<<SIf("b", x, y)>> : x \in C12Leaf, y \in C12Leaf \cup {<<>>}}
             \cup {<<SRange("l", x)>> : x \in C12Leaf} \cup {<<SCall("p")>>, <<SCall("q")>>}
             \cup {<<SRange("l", <<SIf("b", x, <<>>), SCall("p")>>)>> : x \in C12Leaf}
C12Exec(b, bad, at) == [data |-> << <<"b", Bool(b)>> >> \o (IF bad THEN << <<"bad", Bool(TRUE)>> >> ELSE <<>>)
                                   \o << <<"k", Str("<" \o ToString(at))>>, <<"l", ListV(<<Str("1"), Str("2")>>)>> >>,
                        cargo |-> Str("c"), at |-> at, rec |-> TRUE]
C12Boom == [C12Exec(TRUE, FALSE, -1) EXCEPT !.data = << <<"b", Bool(TRUE)>>, <<"boom", Bool(TRUE)>>, <<"k", Str("p")>>, <<"l", ListV(<<Str("1"), Str("2")>>)>> >>]
C12Some(data, cargo) == [data |-> data, cargo |-> cargo, at |-> -1, rec |-> TRUE]
C12Histories == << <<C12Exec(TRUE, FALSE, -1), C12Boom, C12Exec(TRUE, FALSE, -1), C12Boom, C12Exec(FALSE, TRUE, -1)>>,  <<C12Exec(TRUE, FALSE, -1), C12Exec(TRUE, TRUE, -1), C12Exec(FALSE, FALSE, -1)>>,
                   <<C12Exec(TRUE, TRUE, -1), C12Exec(TRUE, FALSE, -1), C12Exec(TRUE, FALSE, 4), C12Exec(TRUE, FALSE, -1)>>,
                   <<C12Exec(FALSE, FALSE, 0), C12Exec(FALSE, FALSE, 9), C12Exec(FALSE, TRUE, 20), C12Exec(FALSE, FALSE, -1)>>,
                   \* with nothing after something
                   <<C12Some(<< <<"b", Bool(TRUE)>>, <<"k", Str("K")>> >>, Str("c")), C12Some(<<>>, NilV), C12Some(<< <<"k", Str("L")>> >>, NilV), C12Some(<<>>, NilV), C12Some(<< <<"l", ListV(<<Str("1")>>)>> >>, NilV),
                     C12Some(<<>>, Str("d")), C12Some(<<>>, NilV)>> >>
C12Nodes == << <<"t", El("u", <<TxtV(Key("k")), TxtV(Key("."))>>)>>, <<"a", AttV("a", <<Key("k")>>)>>, <<"d", DatV("class", " ", <<Str("x"), Key("k")>>)>>,
               <<"e", Coll(<<Txt("E"), When("bad", <<Imp("m", <<OStr("part")>>, "E1")>>), When("boom", <<Imp("p", <<OStr("part")>>, "panic")>>), Txt("F")>>)>> >>
C12Case(segs, h) == [nodes |-> C12Nodes, defs |-> << <<"p", <<SLit("("), SMark("t"), SLit(")")>> >>, <<"q", <<SMark("e"), SCall("p")>> >> >>,
                     segs |-> segs, execs |-> C12Histories[h]]
C12 == {C12Case(<<SLit("<div>")>> \o x \o <<SLit("</div>")>>, h) : x \in C12Segs, h \in 1..5}
       \cup {C12Case(x \o y, h) : x \in Pick(C12Leaf, C12Segs), y \in Pick(C12Leaf, C12Segs), h \in 1..5}
       \cup {[C12Case(x, 1) EXCEPT !.nodes[1] = <<"t", NilN>>] : x \in C12Leaf}
       \* nodes of one value, at every kind of marker
       \cup {[C12Case(<<SLit(p[1]), SMark("t"), SLit(p[2]), SMark("t"), SLit(p[3])>>, 1) EXCEPT !.nodes[1] = <<"t", nd>>] :
               p \in {<<"<p>", "", "</p>">>, <<"<p title=\"", " ", "\">.</p>">>, <<"<p title='", "", "'>.</p>">>, <<"<a href=\"", "/", "\">.</a>">>, <<"<a href='/p?q=", "&amp;r=", "'>.</a>">>,
                      <<"<textarea>", "-", "</textarea>">>, <<"<title>", "", "</title>">>, <<"<b style=\"color: ", "; top: ", "\">.</b>">>},
               nd \in UNION {{TxtV(v), [k |-> "frag", vs |-> <<v>>], ComV(v), Coll(<<TxtV(v)>>), El("i", <<AttV("t", <<v>>), v>>)} : v \in {[t |-> "raw", s |-> Sp.soh \o "<b a='1'>&lt;\"x\"&amp;</b>" \o Sp.stx], Str("<'\"&>"), Key("k"), Fn("f"), Str("")}}}

\* ---------------------------------------------------------------- C15: typed lookups
Leaf(ty, v) == [ty |-> ty, v |-> v]
C15Leaves == {Leaf("string", "string:s"), Leaf("string", "string:"), Leaf("int", "int:7"), Leaf("int", "int:0"), Leaf("nil", "nil"), Leaf("NS", "NS:n"),
              Leaf("stringer", "stringer:g"), Leaf("err", "err:e"), Leaf("both", "both:b"), Leaf("strptr", "strptr:p"), Leaf("strptr", "strptr:nil"), Leaf("bytes", "bytes:b"),
              Leaf("map", "map:m"), Leaf("bool", "bool:false"), Leaf("float64", "float64:1.5")}
C15Some == {Leaf("string", "string:s"), Leaf("int", "int:7"), Leaf("nil", "nil"), Leaf("both", "both:b")}
MapC(key, elem, nil, m) == [c |-> "map", key |-> key, elem |-> elem, nil |-> nil, m |-> m]
C15Maps == {MapC(k, "any", FALSE, << <<"K", v>> >>) : k \in {"string", "named", "any"}, v \in C15Leaves}
           \cup {MapC(k, "any", FALSE, << <<nm, Leaf("string", "string:s")>>, <<"LONG", Leaf("int", "int:7")>> >>) : k \in {"string", "named"}, nm \in {"Long", "long", "K.L", " K"}}
           \cup {MapC(k, "string", FALSE, << <<"K", Leaf("string", "string:m")>>, <<"", Leaf("string", "string:empty")>>, <<"a b", Leaf("string", "string:ab")>> >>) : k \in {"string", "named"}}
           \cup {MapC(k, "int", FALSE, << <<"K", Leaf("int", "int:3")>> >>) : k \in {"string", "named"}}
           \cup {MapC(k, "any", TRUE, <<>>) : k \in {"string", "named", "int"}} \cup {MapC("int", "any", FALSE, << <<"1", Leaf("string", "string:s")>> >>)}
Fld(nm, v) == [n |-> nm, v |-> v]
Emb(nm, how, fs) == [n |-> nm, emb |-> how, fs |-> fs]
How == {"val", "ptr", "nil"}
FieldSets(tag) == {<<>>, <<Fld("K", Leaf("string", "string:" \o tag))>>, <<Fld("L", Leaf("int", "int:7"))>>,
                   <<Fld("L", Leaf("string", "string:l" \o tag)), Fld("K", Leaf("int", "int:7"))>>}
C15L2(nm) == {<<>>} \cup {<<Emb(nm, h, <<f>>)>> : h \in How, f \in {Fld("K", Leaf("string", "string:deep")), Fld("L", Leaf("string", "string:deepl"))}}
C15L1(tag) == {f \o x : f \in FieldSets(tag), x \in C15L2(tag \o "C")}
C15L1s(tag) == {f \o x : f \in {<<>>, <<Fld("K", Leaf("string", "string:" \o tag))>>, <<Fld("L", Leaf("int", "int:7"))>>},
                        x \in {<<>>, <<Emb(tag \o "C", "val", <<Fld("K", Leaf("string", "string:deep"))>>)>>}}
C15Top == {<<>>, <<Fld("K", Leaf("string", "string:top"))>>, <<Fld("k", Leaf("string", "string:low"))>>, <<Fld("k", Leaf("int", "int:7")), Fld("K", Leaf("int", "int:7"))>>}
C15One == {t \o <<Emb(nm, h, x)>> : t \in C15Top, nm \in {"A", "a"}, h \in How, x \in C15L1("A")}
C15Two == {t \o <<Emb("A", h, x), Emb(nm, g, y)>> : t \in Pick({<<>>}, {<<>>, <<Fld("K", Leaf("string", "string:top"))>>}), nm \in {"B", "b"},
             h \in How, g \in Pick({"val"}, How), x \in C15L1s("A"), y \in C15L1s("B")}
C15Cases == {<<Fld(nm, v)>> : nm \in {"Long", "long", "LONG"}, v \in {Leaf("string", "string:s"), Leaf("int", "int:7")}}
            \cup {<<Fld("Long", Leaf("string", "string:s")), Fld("LONG", Leaf("int", "int:7"))>>, <<Emb("AC", "val", <<Fld("Long", Leaf("int", "int:1"))>>), Fld("LONG", Leaf("int", "int:7"))>>}
C15Structs == {[c |-> "struct", fs |-> f] : f \in C15Cases \cup {<<Fld("K", v)>> : v \in C15Leaves} \cup {<<Fld("k", v), Fld("L", v)>> : v \in C15Leaves}
                \cup C15Top \cup C15One \cup C15Two}
C15Cargos == {[c |-> "none"], [c |-> "nilptr", of |-> "struct"], [c |-> "nilptr", of |-> "map"], [c |-> "nilptr", of |-> "string"], [c |-> "nilptr", of |-> "named"]}
             \cup {[c |-> "leaf", v |-> v] : v \in {x \in C15Leaves : x.ty # "map"}} \cup {[c |-> "leaf", v |-> Leaf(x, x)] : x \in {"slice", "func", "chan", "array", "ctx"}}
             \cup C15Maps \cup C15Structs
C15Ptr(x) == [c |-> "ptr", p |-> x]
C15All == C15Cargos \cup {C15Ptr(x) : x \in C15Maps \cup {[c |-> "struct", fs |-> f] : f \in {<<Fld("K", v)>> : v \in C15Leaves} \cup C15Top \cup C15Two}}
          \cup {C15Ptr(C15Ptr(x)) : x \in {[c |-> "struct", fs |-> <<Fld("K", Leaf("string", "string:s"))>>], MapC("string", "any", FALSE, << <<"K", Leaf("string", "string:s")>> >>)}}
C15Small == {x \in C15All : x.c \in {"none", "nilptr", "leaf", "map"} \/ (x.c = "ptr" /\ x.p.c \in {"map", "ptr"})
               \/ (x.c = "struct" /\ Len(x.fs) <= 2 /\ \A e \in 1..Len(x.fs) : "emb" \notin DOMAIN x.fs[e])}
C15Case(d, c) == [data |-> d, cargo |-> c]
C15 == {C15Case(<<>>, c) : c \in C15All}
       \cup {C15Case(<< <<"K", v>> >>, c) : v \in Pick(C15Some, C15Leaves), c \in C15Small}
       \cup {C15Case(<< <<nm, Leaf("int", "int:0")>> >>, c) : nm \in {"Long", "long", "K.L"}, c \in {[c |-> "none"]} \cup {[c |-> "struct", fs |-> f] : f \in C15Cases}}
       \cup {C15Case(<< <<"", v>>, <<"k", v>>, <<"K", v>> >>, c) : v \in C15Leaves, c \in {x \in C15Small : x.c \in {"none", "nilptr"}}}

\* ---------------------------------------------------------------- C17: styles, lists, headers
Imprt == PV("css.Important", <<>>)
C17Values == {<<Str("red")>>, <<PV("css.Px", <<Key("k")>>)>>, <<Str("1"), Str(" "), PV("css.Em", <<Str("2")>>), Imprt>>,
              <<PV("css.Percent", <<FnM("f", "data", "k")>>)>>, <<>>, <<CatV(<<Key("k"), Str(",")>>), Imprt>>, <<PV("css.Rem", <<Str("1"), PV("css.Px", <<Key("k")>>)>>)>>,
              <<NilV>>, <<Key("no")>>, <<PV("css.BorderSolid", <<>>)>>, <<Str("a"), Key("k"), PV("css.Pt", <<>>)>>}
C17Styles == {Pkg("css.Color", <<Str("red")>>), Pkg("css.Width", <<PV("css.Px", <<Key("k")>>)>>), Pkg("css.Margin", <<Str("1"), Str(" "), Str("2"), Imprt>>),
              Pkg("html.Style", <<Str("a:b"), Str("c:d")>>), Pkg("svg.Style", <<Key("k")>>), When("f", <<Pkg("css.Top", <<Key("k")>>)>>),
              NWhen("f", <<Pkg("html.Style", <<Str("x:y"), Str("z:w")>>)>>), Coll(<<Pkg("css.Top", <<Str("0")>>), Pkg("css.Left", <<Fn("g")>>)>>),
              When("f", <<Coll(<<Pkg("css.Right", <<Str("1")>>), NWhen("g", <<Pkg("css.Bottom", <<Str("2")>>)>>)>>), Pkg("css.ZIndex", <<Str("3"), Imprt>>)>>),
              DatV("style", "; ", <<Str("p:q")>>)}
UnitNames == {Cats[f].n : f \in {g \in DOMAIN Cats : Cats[g].kind = "unit"}}
C17Units == {<<Key("k"), Str("1" \o u)>> : u \in UnitNames} \cup {<<Str("1" \o u)>> : u \in UnitNames} \cup {<<Str("1" \o u), Str(" "), Key("k")>> : u \in UnitNames} \cup {<<Str(u)>> : u \in UnitNames}
            \cup {<<[t |-> "lit", ty |-> "int", s |-> "0"]>>, <<[t |-> "lit", ty |-> "float64", s |-> "0"]>>, <<Str("0")>>, <<Str("auto")>>, <<Str("")>>, <<Str(" 1 ")>>, <<Str("1;")>>, <<NilV, Str("2")>>, <<Str("calc(1"), Str(")")>>, <<Bool(TRUE)>>, <<[t |-> "raw", s |-> "3"]>>}
C17Few == {Pkg("css.Color", <<Str("red")>>), Pkg("html.Style", <<Str("a:b"), Key("k")>>), When("f", <<Pkg("css.Top", <<Key("k")>>)>>),
           NWhen("f", <<Pkg("css.Left", <<Str("1")>>), Pkg("css.Top", <<Str("2"), Imprt>>)>>)}
C17Lists == {Pkg("htmx.Trigger", <<Str("click")>>), Pkg("htmx.Trigger", <<Str("a"), Key("k")>>), When("f", <<Pkg("htmx.Trigger", <<Str("w")>>)>>),
             Pkg("htmx.Vars", <<VarV("x", Str("1"))>>), Pkg("htmx.Vars", <<VarV("y", Key("k")), Str("z: 2")>>), NWhen("f", <<Pkg("htmx.Vars", <<VarV("n", Fn("h"))>>)>>),
             Pkg("htmx.Params", <<Str("p"), Str("q")>>), Pkg("htmx.Inherit", <<Str("i"), Key("k")>>), Pkg("htmx.Disinherit", <<Key("no"), Str("d")>>), Pkg("html.Class", <<Str("c"), Key("k")>>)}
C17Maps == {HMap(<<>>), HMap(<< <<"A", Str("1")>> >>), HMap(<< <<"B", Key("k")>>, <<"A", Str("2")>> >>), HMap(<< <<"b", Fn("h")>>, <<"B", Str("3")>>, <<"A b", Str("'x'")>> >>),
            HMap(<< <<"B", Str("4")>>, <<"AA", Str("5")>>, <<"A", NilV>> >>)}
C17More == {HMap(<< <<"x10", Str("1")>>, <<"x9", Str("2")>>, <<"X-a", Str("3")>> >>), HMap(<< <<"", Str("1")>>, <<"_", Str("2")>>, <<"Z", Key("no")>>, <<"b", Str("")>> >>)}
C17Data == << << <<"f", Bool(TRUE)>>, <<"k", Str("K")>> >>, << <<"f", Bool(FALSE)>>, <<"g", Str("")>> >> >>
C17 == {With(El("div", <<Pkg(f, v)>>), C17Data) : f \in {"css.Width", "css.FontFamily", "html.Style", "svg.Style"}, v \in C17Values}
       \cup {With(El("div", <<Pkg("css.Color", v), Pkg("css.Width", w)>>), C17Data) : v \in C17Values, w \in C17Values}
       \cup {With(El("div", <<Pkg("css.Width", <<PV(f, v)>>), AttV("a", <<PV(f, v)>>)>>), C17Data) : f \in Of({"unit"}), v \in C17Units}
       \cup {With(El("div", s), C17Data) : s \in Seqs(C17Styles, 1, 2)}
       \cup {With(El("div", s), C17Data) : s \in Seqs(C17Few, 3, Pick(3, 4))}
       \cup (IF Thorough THEN {With(El("div", s), C17Data) : s \in Seqs(C17Styles, 3, 3)} ELSE {})
       \cup {With(El("div", s), C17Data) : s \in Seqs(C17Lists, 1, Pick(2, 3))}
       \cup {With(El("div", <<Hdr(js, vs)>>), C17Data) : js \in {TRUE, FALSE}, vs \in Seqs(C17Maps, 1, 3)}
       \cup {With(El("div", <<Hdr(js, <<m>> \o vs)>>), C17Data) : js \in {TRUE, FALSE}, m \in C17More, vs \in Seqs(C17Maps, 0, 1)}
       \cup {With(El("div", <<Hdr(TRUE, <<>>)>>), C17Data)}
       \cup {With(El("div", <<Hdr(FALSE, vs)>>), C17Data) : vs \in {<<>>, <<Str("{'a': 1}")>>, <<Str("{'a': "), Key("k"), Str("}")>>}}
       \cup {With(El("div", <<Hdr(FALSE, vs)>>), <<>>) : vs \in {<<HMap(<< <<"A", Str("1")>> >>), Str("x")>>, <<Str("x"), HMap(<<>>)>>, <<HMap(<<>>), HMap(<<>>), NilV>>}}
       \cup {With(El("div", <<Hdr(FALSE, <<m>>), When("f", <<Hdr(j, <<n>>)>>)>>), C17Data) : m \in C17Maps, n \in C17Maps, j \in {TRUE, FALSE}}

\* ---------------------------------------------------------------- C19: every constructor
C19Data == << << <<"f", Bool(TRUE)>>, <<"k", Str("K")>> >>, <<>> >>
OpInfo(id) == [op |-> "info", id |-> id]
C19Contents == << <<>>, <<Str("x")>>, <<Pkg("html.Span", <<Str("y")>>), Att("id", "1")>>, <<Key("k"), NilN, FnM("g", "data", "k")>>,
                  <<Att("t", "a"), Str("m"), When("f", <<Att("t", "b"), Txt("c")>>), Bat("z")>>, <<Coll(<<Txt("p"), Dat("class", " ", <<"q">>)>>), Com("r")>> >>
C19Attrs == << <<Bool(TRUE)>>, <<Str("")>>, <<[t |-> "lit", ty |-> "int", s |-> "0"]>>, <<Bool(FALSE)>>, <<>>, <<Str("x")>>, <<Str("a"), Key("k")>>, <<Key("no"), NilV>>, <<FnM("g", "data", "k"), Str("<")>>, <<CatV(<<Key("k"), Str("'")>>), Bool(TRUE), Key("k")>> >>
C19Show(nd) == << OpMake("n", nd), OpInfo("n"), OpMake("root", El("w", <<Ref("n"), Txt("|")>>)), OpRender("root", C19Data[1], NilV), OpRender("root", C19Data[2], NilV) >>
C19Nodes == {PkgN(f, "", C19Contents[x]) : f \in Of({"el", "void"}), x \in 1..Pick(5, 6)}
            \cup {PkgN(f, "", C19Attrs[x]) : f \in Of({"attr", "delim", "css"}), x \in 1..Len(C19Attrs)}
            \cup {PkgN(f, "", <<>>) : f \in Of({"bool"})}
            \cup {PkgN(f, nm, C19Attrs[x]) : f \in Of({"prefixed"}), nm \in {"x", "long-name-of-it", "y"}, x \in 1..Len(C19Attrs)}
            \cup {PkgN(f, nm, C19Attrs[6]) : f \in Of({"prefixed"}), nm \in {"data-x", "aria-x", "hx-on:x", "on:x", "on", "data-", "data", "aria", "-x", "X", "a.b", "x_1", ":x", "data-data-x"}}
            \cup {PkgN(f, "", C19Attrs[x]) : f \in Of({"text", "comment"}), x \in 1..Len(C19Attrs)}
            \cup {PkgN(f, "xml", C19Attrs[x]) : f \in Of({"pi"}), x \in 1..Len(C19Attrs)}
            \cup UNION {{[k |-> kd, vs |-> C19Attrs[x]] : kd \in {"text", "comment", "frag"}} : x \in 1..Len(C19Attrs)}
            \cup {[k |-> "pi", n |-> nm, vs |-> C19Attrs[x]] : nm \in {"xml", "x"}, x \in 1..Len(C19Attrs)}
            \cup UNION {{AttV("a", C19Attrs[x]), [AttV("a-b", C19Attrs[x]) EXCEPT !.ctor = "Attribute"], DatV("c", " ", C19Attrs[x]), [DatV("c:d", ", ", C19Attrs[x]) EXCEPT !.ctor = "DelimitedAttribute"]} : x \in 1..Len(C19Attrs)}
            \cup UNION {{El("e", C19Contents[x]), ElC("Element", "e.f", C19Contents[x]), ElC("Element", "wbr", C19Contents[x]), ElC("VoidElement", "V", C19Contents[x]), Void("v", C19Contents[x])} : x \in 1..Len(C19Contents)}
            \cup {[k |-> "doc", lang |-> NilV, head |-> <<>>, body |-> <<Txt("x")>>], [Bat("B") EXCEPT !.ctor = "BooleanAttribute"]}
            \cup {[k |-> "doctype"], Txt("x"), Com("x"), Frag("x"), Att("a", "x"), Bat("b"), Dat("c", " ", <<"x">>), ElC("Element", "br", <<>>), ElC("Element", "q", <<>>), Void("v", <<>>)}
\* two of the same prefix, declared before either is rendered
C19Pairs == {Program(<< OpMake("a", PkgN(f, "x", <<Str("1")>>)), OpMake("b", PkgN(g, "yyyy", <<Str("2")>>)), OpMake("c", PkgN(f, "zzzzzzzzzzzz", <<Str("3")>>)),
                        OpInfo("a"), OpInfo("b"), OpInfo("c"), OpMake("root", El("w", <<Ref("a"), Ref("b"), Ref("c")>>)), OpRender("root", <<>>, NilV), OpInfo("a") >>) : f \in Of({"prefixed"}), g \in Of({"prefixed"})}
C19Values == {Program(<< OpMake("root", El("w", <<Att("a", "-"), AttV("b", <<v, Str("+"), v>>), TxtV(v)>>)), OpRender("root", C19Data[1], NilV) >>) :
                v \in {PV(f, <<>>) : f \in Of({"const"})} \cup {PV(f, c) : f \in Of({"unit"}), c \in {<<Str("1")>>, <<Key("k"), Str(".5")>>, <<>>}}
                      \cup {VarV(n, c) : n \in {"x", ""}, c \in {Str("1"), Key("k"), NilV}} \cup {[t |-> "nbsp", count |-> n, n |-> b] : n \in {1, 2, 5}, b \in {TRUE}} \cup {[t |-> "nbsp", count |-> 1, n |-> FALSE]}}
C19 == {Program(C19Show(n)) : n \in C19Nodes} \cup C19Pairs \cup C19Values

\* ---------------------------------------------------------------- C18: documents
LOWER == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
            CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g" [] c = "H" -> "h"
              [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l" [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p"
              [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t" [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
              [] c = "Y" -> "y" [] c = "Z" -> "z"]
Low(x) == StrOf([i \in 1..Len(x) |-> LET c == SubSeq(x, i, i) IN IF c \in DOMAIN LOWER THEN LOWER[c] ELSE c])
Raws == {"iframe", "noembed", "noframes", "noscript", "script", "style", "xmp"}   \* their text is raw
Plains == {"title", "textarea"}                                                      \* only text in them
Voids == {"area","base","br","col","embed","hr","img","input","link","meta","param","source","track","wbr"}
GA(n, v) == [n |-> n, v |-> v, nov |-> FALSE]
GN(n) == [n |-> n, v |-> "", nov |-> TRUE]
GStart(n, as, sl, style) == [e |-> "start", n |-> n, as |-> as, sl |-> sl, up |-> FALSE, style |-> style, raw |-> n \in Raws]
GEnd(n) == [e |-> "end", n |-> n, up |-> FALSE]
GText(x, style) == [e |-> "text", s |-> x, style |-> style]
GCom(x) == [e |-> "comment", s |-> x]
GComIn(x, style) == [e |-> "comment", s |-> x, style |-> style]
GDoct(x) == [e |-> "doctype", s |-> x, up |-> FALSE]
GCase(pkg, step, doc) == [pkg |-> pkg, step |-> step, doc |-> doc]
GWrap(doc) == <<GStart("div", <<>>, FALSE, "")>> \o doc \o <<GText("z", ""), GEnd("div")>>
GOne(n, as) == <<GStart(n, as, FALSE, "")>> \o (IF n \in Voids THEN <<>> ELSE <<GText("t", ""), GEnd(n)>>)
GNames(pkg, kinds) == {Low(Cats[f].n) : f \in {g \in Of(kinds) : SubSeq(g, 1, Len(pkg) + 1) = pkg \o "."}}
\* names which the writer of HTML may use and aitch.Element and aitch.Attribute do not accept
C18OddEls == {"a@b", "a\"b", "a'b", "a&b", "a<b", "a\\b", "a`b", "x_", "x-", "x:", "x.", "a--b", "a=b", "b" \o Bytes(<<195, 169>>)}
C18OddAttrs == {"@click", "_", "[x]", "(y)", "#ref", "*ng-if", "v-on:click.prevent", "x@y", "a,b", "1x", "-x", "a\"b", "a'b", "a<b", "a&b", "a\\b", "a`b", "a%b",
                "x-", "x:", "x.", ":", "--", "{{a}}", "a;b", Bytes(<<195, 169>>), "&amp;", "x&lt;"}
C18Els == GNames("html", {"el", "void"}) \cup GNames("svg", {"el"}) \cup Voids \cup {"x-y", "foo", "h7", "noframes", "xmp", "noembed"} \cup C18OddEls
C18Attrs == GNames("html", {"attr", "bool", "delim"}) \cup GNames("svg", {"attr", "delim"}) \cup GNames("htmx", {"attr", "delim"}) \cup {"x", "aria-x", "data-y", "xlink:href", "hx-on:click", "a.b", "a_c", "role", "onclick", "onload"} \cup C18OddAttrs
C18NameDocs ==
  {GCase("html", 7, GWrap(GOne(n, as))) : n \in C18Els, as \in {<<>>, <<GA("a", "1"), GA("class", "c d")>>}}
  \cup {GCase("svg", 7, GWrap(GOne(n, as))) : n \in C18Els \ Voids, as \in {<<>>, <<GA("a", "1"), GA("class", "c d")>>}}
  \cup {GCase("html", 7, GWrap(<<GStart(n, as, TRUE, "")>>)) : n \in Voids, as \in {<<>>, <<GA("a", "1")>>}}
  \cup {GCase("html", 7, GWrap(<<GStart(n, as, FALSE, ""), GEnd("wbr")>>)) : n \in {"br"}, as \in {<<>>, <<GA("a", "1")>>}}
  \cup {GCase("svg", 7, GWrap(<<GStart(n, as, TRUE, "")>>)) : n \in C18Els \ Voids, as \in {<<>>, <<GA("a", "1")>>}}
  \* what follows an element which has been closed is not its text
  \cup {GCase(p, 7, <<GStart("div", <<>>, FALSE, ""), GStart(n, as, TRUE, "")>> \o next \o <<GStart("b", <<>>, FALSE, ""), GText("x<", ""), GEnd("b"), GCom("c"), GEnd("div")>>) :
          p \in {"html", "svg"}, n \in Raws \cup Plains \cup {"div", "x-y"}, as \in {<<>>, <<GA("a", "1")>>},
          next \in {<<>>, <<GText("a&b", "")>>, <<GStart("style", <<>>, TRUE, "")>>, <<GStart("style", <<>>, FALSE, ""), GText("a&b", ""), GEnd("style")>>}}
  \cup {GCase(p, 7, <<GStart("p", <<GA("b", "0"), a, GA("c", "2")>>, FALSE, ""), GText("t", ""), GEnd("p")>>) :
          p \in {"html", "svg"}, a \in {GA(n, "v w") : n \in C18Attrs} \cup {GA(n, "v\tw  x\ny; z:1;;v ,q,") : n \in C18Attrs} \cup {GN(n) : n \in C18Attrs} \cup {GA(n, "") : n \in C18Attrs}}
C18Chars == {"a", "\"", "\\", "<", "&", "'", "`", "%", "\n", " ", ">", ";", ")", "{"}
C18ComBits == {"", " ", " a", "a ", "[if IE]> ", "[if lt IE 9]><p>x</p><![endif]", "\n a \n", "xml", "a b", "\"", "\\", "<", "&", "'", ">", "`", "\n", "]]", "-", "--", "?", "xml version=\"1.0\"?"}
C18TextDocs ==
  \* texts of several lines, with carriage returns (as references)
  {GCase(p, 31, <<GStart("p", <<GA("title", x)>>, FALSE, ""), GText("a" \o x, ""), GEnd("p"), GText(x \o "b", "hex")>>) :
     p \in {"html", "svg"}, x \in {StrOf(q) : q \in Seqs({"c", "\r", "\n", "`"}, 1, Pick(4, 5))}}
  \cup {GCase(p, Pick(3, 29), <<GStart("p", <<GA("title", x), GA("u", x)>>, FALSE, style), GText(x, style), GEnd("p"), GText(x, style), GCom(x), GText("e", "")>>) :
     p \in {"html", "svg"}, x \in {StrOf(q) : q \in Seqs(C18Chars, 1, Pick(2, 3))} \ {"->"}, style \in Pick({""}, {"", "num", "single", "raw"})}
  \cup {GCase(p, 3, <<GStart(n, <<>>, FALSE, ""), GText(x, ""), GEnd(n)>>) : p \in {"html", "svg"}, n \in Raws \cup Plains,
          x \in {StrOf(q) : q \in Seqs({"a", "\"", "\\", "<", "&", "'", ">", "\n"}, 1, 2)}}
  \cup {GCase(p, 3, <<GStart("p", <<>>, FALSE, ""), GText("t", ""), c, GEnd("p"), c>>) : p \in {"html", "svg"},
          c \in {GComIn("?" \o x, "pi") : x \in C18ComBits} \cup {GComIn("[CDATA[" \o x, "bang") : x \in C18ComBits} \cup {GComIn(" " \o x, "slash") : x \in C18ComBits} \cup {GCom(x) : x \in C18ComBits \ {"-", "--", ">"}}}
\* no-break space, line separator, byte order mark, ideographic space, e acute, a letter outside the first plane, vertical tab
C18Far == {Bytes(b) : b \in {<<194, 160>>, <<226, 128, 168>>, <<239, 187, 191>>, <<227, 128, 128>>, <<195, 169>>, <<240, 159, 152, 128>>, <<11>>, <<127>>, <<194, 133>>, <<226, 130, 172>>}}
C18FarDocs ==
  {GCase(p, 31, <<GStart("p", <<GA("title", x)>>, FALSE, style), GText(x, style), GEnd("p"), GText(x \o y, style), GCom(y \o x)>>) :
     p \in {"html", "svg"}, x \in C18Far, y \in {"", " ", "a"} \cup C18Far, style \in {"", "ent"}}
  \cup {GCase(p, 31, <<GStart(n, <<>>, FALSE, ""), GText(x, ""), GEnd(n)>>) : p \in {"html", "svg"}, n \in {"script", "title"}, x \in C18Far}
\* one thing often, and another once
C18Many(m, x) == StrOf([i \in 1..m |-> x])
C18Once == {"", "a", "`", "\"", "\\", "\n", "'", Bytes(<<255>>), Bytes(<<195, 169>>), Bytes(<<239, 187, 191>>), Bytes(<<127>>), Bytes(<<1>>), Bytes(<<9>>), Bytes(<<226, 128, 168>>)}
C18Often == {GCase("html", 31, <<GStart(n, <<>>, FALSE, ""), GText(C18Many(m, x) \o y \o C18Many(z, x) , ""), GEnd(n)>>) : n \in {"script", "p", "title"}, m \in Pick({1, 7}, {1, 4, 7, 16}), z \in {0, 7}, x \in {"\"", "\\", "`", "\n", "a b"}, y \in C18Once}
             \cup {GCase("html", 31, <<GStart("p", <<GA("title", C18Many(m, x) \o y \o C18Many(2, x))>>, FALSE, ""), GText("t", ""), GEnd("p")>>) : m \in Pick({7}, {1, 4, 7, 16}), x \in {"\"", "\\", "`", "\n", "a b"}, y \in C18Once}
C18Leaf == {<<GText("t", "")>>, <<GText(" \n", "")>>, <<GCom("c")>>, <<GStart("br", <<>>, TRUE, "")>>, <<GStart("x", <<GA("k", "v")>>, FALSE, ""), GEnd("x")>>,
            <<GStart("b", <<GA("class", "a"), GN("hidden")>>, FALSE, ""), GText(" u ", ""), GEnd("b")>>}
C18Mid == {<<GStart("p", <<>>, FALSE, "")>> \o x \o y \o <<GEnd("p")>> : x \in C18Leaf, y \in C18Leaf}
GSound(doc) == \A x \in 1..Len(doc) - 1 : ~(doc[x].e = "text" /\ doc[x + 1].e = "text")
\* (svg has no void elements)
ForPkg(p, d) == [x \in 1..Len(d) |-> IF p = "svg" /\ d[x].e = "start" /\ d[x].n = "br" THEN [d[x] EXCEPT !.n = "use"] ELSE d[x]]
C18Shapes == {GCase(p, 1, ForPkg(p, d)) : p \in {"html", "svg"}, d \in {x \in C18Leaf \cup C18Mid \cup {x \o y : x \in C18Leaf, y \in C18Leaf \cup Pick({}, C18Mid)}
                                    \cup {<<GStart("div", <<GA("id", "1")>>, FALSE, "")>> \o x \o <<GStart("i", <<>>, FALSE, "")>> \o y \o <<GEnd("i"), GEnd("div")>> : x \in C18Leaf, y \in C18Leaf} : GSound(x)}}
             \cup {GCase(p, 1, <<GDoct(x), GText("\n", ""), GStart("html", <<>>, FALSE, ""), GText("t", ""), GEnd("html")>>) : p \in {"html", "svg"},
                     x \in {"html", "HTML", "html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\"", "html SYSTEM 'about:legacy-compat'"}}
             \cup {GCase(p, 1, <<>>) : p \in {"html", "svg"}}
C18 == C18NameDocs \cup C18TextDocs \cup C18FarDocs \cup C18Often \cup C18Shapes

\* ---------------------------------------------------------------- writing
U == CASE Property = "C01" -> C01 [] Property = "C02" -> C02 [] Property = "C03" -> C03 [] Property = "C04" -> C04
       [] Property = "C05" -> C05 [] Property = "C06" -> C06 [] Property = "C07" -> C07 [] Property = "C08" -> C08 [] Property = "C09" -> C09 [] Property = "C10" -> C10
       [] Property = "C11" -> C11 [] Property = "C12" -> C12 [] Property = "C13" -> C13 [] Property = "C14" -> C14 [] Property = "C15" -> C15 [] Property = "C16" -> C16
       [] Property = "C17" -> C17 [] Property = "C18" -> C18 [] Property = "C19" -> C19
All == SetToSeq(U)
ASSUME ndJsonSerialize(IOEnv.OUT, [x \in 1..Len(All) |-> [id |-> "u" \o ToString(x), case |-> All[x]]])
ASSUME PrintT("UNIVERSE " \o ToString(Len(All)))
=============================================================================
