--------------------------------- MODULE Gen ---------------------------------
(* Generating template code from markup.  A document is a well-nested sequence *)
(* of events as read; the generator goes through it, keeping the elements that *)
(* are open, and leaves one template; the machine of module Aitch renders it.  *)
(* PropC18 says what must come out in terms of the document alone, and every   *)
(* observation of the real generators (file CASES) is compared with it.        *)
(*   case: [pkg, doc]; doc: start(n, as, sl) end(n) text(s) comment(s)         *)
(*   doctype(s); as: [n, v, nov], sl: written with a slash, nov: without value *)
EXTENDS Aitch

Programs == ndJsonDeserialize(IOEnv.CASES)
VARIABLES prog, at, st, run, phase, verdict, steps
vars == <<prog, at, st, run, phase, verdict, steps>>

Html == Programs[prog].case.pkg = "html"
Doc == Programs[prog].case.doc
Obs == Programs[prog].tr
Blank(s) == \A x \in 1..Len(s) : Ch(s, x) \in {" ", "\n", "\t"}
BoolNames == {Catalog0[f].n : f \in {g \in DOMAIN Catalog0 : Catalog0[g].kind = "bool" /\ IsPrefixStr("html.", g)}}
IsVoid(n) == Html /\ n \in VoidNames

(* ---- the generator: a stack of the elements that are open *)
Frame(n, as) == [n |-> n, as |-> as, kids |-> <<>>]
AttrOf(a) == IF Html /\ a.n \in BoolNames THEN MkAttr("bool", a.n, "", <<>>)
             ELSE MkAttr("plain", a.n, "", <<TextVal(a.v)>>)
Attrs(e) == Map(AttrOf, e.as)
Top == st[Len(st)]
Add(n) == [st EXCEPT ![Len(st)].kids = Append(@, n)]
Close(s) == LET f == s[Len(s)] IN
            [SubSeq(s, 1, Len(s) - 1) EXCEPT ![Len(s) - 1].kids = Append(@, MkEl(FALSE, f.n, f.as \o f.kids))]

Init == /\ prog \in 1..Len(Programs) /\ at = 1 /\ st = <<Frame("", <<>>)>> /\ run = Idle([x \in {} |-> 0])
        /\ phase = "read" /\ verdict = "run" /\ steps = 0

Token ==
  /\ phase = "read" /\ at <= Len(Doc)
  /\ LET e == Doc[at] IN
     st' = CASE e.e = "start" -> IF IsVoid(e.n) THEN Add(MkEl(TRUE, e.n, Attrs(e)))
                                 ELSE IF e.sl THEN Add(MkEl(FALSE, e.n, Attrs(e)))
                                 ELSE Append(st, Frame(e.n, Attrs(e)))
             [] e.e = "end" -> IF IsVoid(e.n) THEN st ELSE Close(st)
             [] e.e = "text" -> IF Blank(e.s) THEN st ELSE Add([k |-> "text", vs |-> <<TextVal(e.s)>>])
             [] e.e = "comment" -> Add([k |-> "comment", vs |-> <<TextVal(e.s)>>])
             [] e.e = "doctype" -> IF Html THEN Add([k |-> "pi", n |-> "DOCTYPE", vs |-> <<TextVal(e.s)>>]) ELSE st
  /\ at' = at + 1 /\ steps' = steps + 1
  /\ UNCHANGED <<prog, run, phase, verdict>>
Generated ==
  /\ phase = "read" /\ at > Len(Doc)
  /\ run' = Start([k |-> "coll", cs |-> st[1].kids], Ctx(<<>>, NilV), run.cnt)
  /\ phase' = "render" /\ steps' = steps + 1
  /\ UNCHANGED <<prog, at, st, verdict>>
Render ==
  /\ phase = "render" /\ ~Done(run)
  /\ run' = Step(run) /\ steps' = steps + 1
  /\ UNCHANGED <<prog, at, st, phase, verdict>>

(* ---- what the document asks for *)
Wanted ==
  FoldLeft(LAMBDA a, e :
    CASE e.e = "start" -> a \o << [k |-> "tag", n |-> e.n, as |-> e.as, v |-> ""] >>
                            \o (IF ~IsVoid(e.n) /\ e.sl THEN << [k |-> "close", n |-> e.n, as |-> <<>>, v |-> ""] >> ELSE <<>>)
      [] e.e = "end" -> IF IsVoid(e.n) THEN a ELSE Append(a, [k |-> "close", n |-> e.n, as |-> <<>>, v |-> ""])
      [] e.e = "text" -> IF Blank(e.s) THEN a
                         ELSE IF a # <<>> /\ a[Len(a)].k = "text" THEN [a EXCEPT ![Len(a)].v = @ \o e.s]
                         ELSE Append(a, [k |-> "text", n |-> "", as |-> <<>>, v |-> e.s])
      [] e.e = "comment" -> Append(a, [k |-> "comment", n |-> "", as |-> <<>>, v |-> e.s])
      [] e.e = "doctype" -> IF Html THEN Append(a, [k |-> "doctype", n |-> "", as |-> <<>>, v |-> e.s]) ELSE a,
    <<>>, Doc)
SameAttrs(as, os) ==
  /\ Len(as) = Len(os)
  /\ \A x \in 1..Len(as) : as[x].n = os[x].n /\ ((Html /\ as[x].n \in BoolNames) \/ as[x].v = os[x].v)
Same(ws, os) ==
  /\ Len(ws) = Len(os)
  /\ \A x \in 1..Len(ws) : ws[x].k = os[x].k /\ ws[x].n = os[x].n
                           /\ IF ws[x].k = "tag" THEN SameAttrs(ws[x].as, os[x].as) ELSE ws[x].v = os[x].v

(* on the specification: the machine's rendering of the generated template *)
ModelToks == Map(LAMBDA t : CASE t.k = "tag" -> [k |-> "tag", n |-> t.n, as |-> t.as, v |-> ""]
                              [] t.k = "pi" -> [k |-> "doctype", n |-> "", as |-> <<>>, v |-> t.v]
                              [] OTHER -> [k |-> t.k, n |-> t.n, as |-> <<>>, v |-> t.v], run.out)
PropC18 == (phase = "render" /\ Done(run)) => Same(Wanted, ModelToks) /\ Len(st) = 1
(* elements are open exactly as in the part of the document read so far *)
Nested == Len(st) = 1 + Cardinality({x \in 1..at - 1 : Doc[x].e = "start" /\ ~IsVoid(Doc[x].n) /\ ~Doc[x].sl})
                      - Cardinality({x \in 1..at - 1 : Doc[x].e = "end" /\ ~IsVoid(Doc[x].n)})

(* the real code *)
Compare ==
  IF Obs.panic # "" THEN Obs.panic
  ELSE IF Obs.err # "" THEN "an error without a fault: " \o Obs.err
  ELSE IF Obs.bad # "" THEN "generated code: " \o Obs.bad
  ELSE IF ~Same(Wanted, Obs.toks) THEN "read back"
  ELSE IF ~Obs.same THEN "depends on how the input is read"
  ELSE LET S == {x \in 1..Len(Obs.faults) : ~Obs.faults[x].err} IN
       IF S # {} THEN LET f == Obs.faults[CHOOSE x \in S : TRUE] IN "failure lost: " \o f.kind \o " at byte " \o ToString(f.at) ELSE ""
Check ==
  /\ verdict = "run" /\ phase = "render" /\ Done(run)
  /\ verdict' = "done" /\ steps' = steps + 1
  /\ IF Compare = "" THEN PrintT("ACCEPT " \o Programs[prog].id)
     ELSE PrintT("REJECT " \o Programs[prog].id \o " " \o ToJson([why |-> Compare, wanted |-> Wanted]))
  /\ UNCHANGED <<prog, at, st, run, phase>>

Next == Token \/ Generated \/ Render \/ Check
Spec == Init /\ [][Next]_vars
View == <<prog, steps>>
=============================================================================
