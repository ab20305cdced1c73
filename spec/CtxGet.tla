------------------------------- MODULE CtxGet -------------------------------
(* Typed lookup in a context.  A lookup is a small machine:                    *)
(*   "data"    the entry of that name in the data, if it has the type          *)
(*   "cargo"   one pointer is followed                                        *)
(*   "map"     a map whose keys are of string kind                            *)
(*   "struct"  the fields, one depth of embedding after the other              *)
(*   "end"     found (res = <<value>>) or not (<< >>)                          *)
(* leaf values:  [ty, v]   ty is the dynamic type, "nil" for none              *)
(* cargo: [c |-> "none"], [c |-> "leaf", v], [c |-> "nilptr"], [c |-> "ptr", p], *)
(*   [c |-> "map", key, elem, nil, m (<<<<name, leaf>>, ..>>)],                  *)
(*   [c |-> "struct", fs]: fields [n, v] or embedded [n, emb, fs],              *)
(*     emb: "val", "ptr", or "nil" (a nil pointer)                             *)
(*                                                                           *)
(* CASES: lines [id, case: [data, cargo, parent], tr: [looks, mut]]             *)
(*   looks: <<[key, type, found, val, zero, must], ...>>                        *)
EXTENDS Integers, Strs, FiniteSets

Programs == ndJsonDeserialize(IOEnv.CASES)
VARIABLES prog, l, stage, cur, depth, res, verdict
vars == <<prog, l, stage, cur, depth, res, verdict>>

C == Programs[prog].case
Tr == Programs[prog].tr
Q == Tr.looks[l]

Has(m, k) == \E x \in 1..Len(m) : m[x][1] = k
At(m, k) == m[CHOOSE x \in 1..Len(m) : m[x][1] = k][2]
Satisfies(v, T) ==
  /\ v.ty # "nil"
  /\ \/ T = "any" \/ v.ty = T
     \/ T = "Stringer" /\ v.ty \in {"stringer", "both"}
     \/ T = "error" /\ v.ty \in {"err", "both"}

Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Exported(nm) == nm # "" /\ Ch(nm, 1) \in Upper
IsEmb(f) == "emb" \in DOMAIN f
ValueOf(f) == IF ~IsEmb(f) THEN f.v
              ELSE CASE f.emb = "val" -> [ty |-> "struct", v |-> "struct"]
                     [] f.emb = "ptr" -> [ty |-> "structptr", v |-> "structptr"]
                     [] f.emb = "nil" -> [ty |-> "structptr", v |-> "structptr:nil"]

\* the fields at one depth: [f, cut] with cut: a nil pointer is on the way
Below(level) == FlattenSeq([x \in 1..Len(level) |->
                   IF IsEmb(level[x].f)
                   THEN [y \in 1..Len(level[x].f.fs) |-> [f |-> level[x].f.fs[y], cut |-> level[x].cut \/ level[x].f.emb = "nil"]]
                   ELSE <<>>])
Level(fs) == [x \in 1..Len(fs) |-> [f |-> fs[x], cut |-> FALSE]]

Begin(i) == l' = i /\ stage' = "data" /\ cur' = <<>> /\ depth' = 0 /\ res' = <<>>
Init == prog \in 1..Len(Programs) /\ l = 0 /\ stage = "next" /\ cur = <<>> /\ depth = 0 /\ res = <<>> /\ verdict = "run"

End(r) == stage' = "end" /\ res' = r /\ UNCHANGED <<cur, depth>>
Data ==
  /\ stage = "data"
  /\ IF Has(C.data, Q.key) /\ Satisfies(At(C.data, Q.key), Q.type) THEN End(<<At(C.data, Q.key)>>)
     ELSE stage' = "cargo" /\ UNCHANGED <<cur, depth, res>>
  /\ UNCHANGED <<prog, l, verdict>>
Cargo ==
  /\ stage = "cargo"
  /\ LET x == IF C.cargo.c = "ptr" THEN C.cargo.p ELSE C.cargo IN
     CASE x.c = "map" /\ x.key \in {"string", "named"} -> End(IF Has(x.m, Q.key) /\ Satisfies(At(x.m, Q.key), Q.type)
                                                              THEN <<At(x.m, Q.key)>> ELSE <<>>)
       [] x.c = "struct" -> stage' = "struct" /\ cur' = Level(x.fs) /\ depth' = 0 /\ UNCHANGED res
       [] OTHER -> End(<<>>)
  /\ UNCHANGED <<prog, l, verdict>>
Fields ==
  /\ stage = "struct"
  /\ LET hits == SelectSeq(cur, LAMBDA e : e.f.n = Q.key) IN
     IF cur = <<>> THEN End(<<>>)
     ELSE IF Len(hits) > 1 THEN End(<<>>)
     ELSE IF Len(hits) = 1 THEN End(IF Exported(hits[1].f.n) /\ ~hits[1].cut /\ Satisfies(ValueOf(hits[1].f), Q.type)
                                    THEN <<ValueOf(hits[1].f)>> ELSE <<>>)
     ELSE cur' = Below(cur) /\ depth' = depth + 1 /\ UNCHANGED <<stage, res>>
  /\ UNCHANGED <<prog, l, verdict>>

What == Q.type \o "(" \o Q.key \o ")"
Compare ==
  /\ stage = "end" /\ verdict = "run"
  /\ LET bad == IF Q.panic # "" THEN "panic in " \o What
                ELSE IF Q.found # (res # <<>>) THEN "found " \o What
                ELSE IF res # <<>> /\ Q.val # res[1].v THEN "value of " \o What
                ELSE IF res = <<>> /\ ~Q.zero THEN "not the zero value: " \o What
                ELSE IF Q.must # (IF res = <<>> THEN "panic" ELSE res[1].v) THEN "MustGet " \o What ELSE ""
     IN IF bad = "" THEN stage' = "next" /\ UNCHANGED verdict ELSE stage' = "stop" /\ verdict' = bad
  /\ UNCHANGED <<prog, l, cur, depth, res>>
NextLook == stage = "next" /\ verdict = "run" /\ l < Len(Tr.looks) /\ Begin(l + 1) /\ UNCHANGED <<prog, verdict>>
Finish ==
  /\ \/ stage = "next" /\ verdict = "run" /\ l = Len(Tr.looks)
     \/ stage = "stop"
  /\ LET v == IF verdict # "run" THEN verdict ELSE IF Tr.mut THEN "context or cargo modified" ELSE "" IN
     IF v = "" THEN PrintT("ACCEPT " \o Programs[prog].id)
     ELSE PrintT("REJECT " \o Programs[prog].id \o " " \o ToJson([why |-> v]))
  /\ stage' = "done" /\ UNCHANGED <<prog, l, cur, depth, res, verdict>>

Next == NextLook \/ Data \/ Cargo \/ Fields \/ Compare \/ Finish
Spec == Init /\ [][Next]_vars

(* what the property says, without the machine *)
TypedResult == res # <<>> => Satisfies(res[1], Q.type)
DataFirst == stage = "end" /\ Has(C.data, Q.key) /\ Satisfies(At(C.data, Q.key), Q.type) => res = <<At(C.data, Q.key)>>
NothingElsewhere == stage = "end" /\ C.cargo.c \in {"none", "nilptr", "leaf"} /\ ~Has(C.data, Q.key) => res = <<>>
Terminates == depth <= 4
=============================================================================
