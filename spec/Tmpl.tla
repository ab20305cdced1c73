-------------------------------- MODULE Tmpl --------------------------------
(* Executing a wrapped html/template.  A template is a list of segments:       *)
(*   [s |-> "lit", v]             text                                        *)
(*   [s |-> "mark", n]            a marker of the node map                    *)
(*   [s |-> "if", key, a, b]      on a boolean (or missing) data entry         *)
(*   [s |-> "range", key, a]      once for each entry of a list                *)
(*   [s |-> "call", n]            another template (defs: <<<<name, segs>>, ..>>) *)
(* The machine works off an agenda of segments; a marker writes what rendering *)
(* its node alone with the same data and cargo writes (solo), and ends the     *)
(* execution when that ends in an error.  Executions follow each other and     *)
(* share nothing but the template.  A writer may fail once `at` bytes are      *)
(* written: then the output ends there, with the writer's error.              *)
(*                                                                           *)
(* CASES: lines [id, case, tr]; tr.perr tr.must: was the text parsed;           *)
(* tr.solo[x]: what the nodes write alone; tr.ex[x]: what execution x did.      *)
EXTENDS Integers, Strs, FiniteSets

Programs == ndJsonDeserialize(IOEnv.CASES)
VARIABLES prog, ex, ag, out, err, verdict, steps
vars == <<prog, ex, ag, out, err, verdict, steps>>

C == Programs[prog].case
Tr == Programs[prog].tr
X == C.execs[ex]
ItemList(key) == IF \E i \in 1..Len(X.data) : X.data[i][1] = key
                 THEN LET v == X.data[CHOOSE i \in 1..Len(X.data) : X.data[i][1] = key][2] IN v ELSE [t |-> "nil"]
Def(nm) == C.defs[CHOOSE i \in 1..Len(C.defs) : C.defs[i][1] = nm][2]

(* every marker that occurs has a node *)
RECURSIVE Marks(_)
Marks(segs) == UNION {CASE segs[x].s = "mark" -> {segs[x].n}
                        [] segs[x].s = "if" -> Marks(segs[x].a) \cup Marks(segs[x].b)
                        [] segs[x].s = "range" -> Marks(segs[x].a)
                        [] OTHER -> {} : x \in 1..Len(segs)}
AllMarks == Marks(C.segs) \cup UNION {Marks(C.defs[x][2]) : x \in 1..Len(C.defs)}
Mapped == {C.nodes[x][1] : x \in {y \in 1..Len(C.nodes) : C.nodes[y][2].k # "nil"}}
Parses == AllMarks \subseteq Mapped

Solo(nm) == LET s == Tr.solo[ex] IN s[CHOOSE i \in 1..Len(s) : s[i].n = nm]

Init == /\ prog \in 1..Len(Programs)
        /\ ex = 0 /\ ag = <<>> /\ out = "" /\ err = "" /\ verdict = "run" /\ steps = 0

Tick == steps' = steps + 1 /\ UNCHANGED prog
Judge(v) == verdict' = v /\ UNCHANGED <<ex, ag, out, err>>

Parsed ==
  /\ verdict = "run" /\ ex = 0
  /\ IF Tr.perr # (IF Parses THEN "" ELSE "error") THEN Judge("parsing: " \o Tr.perr)
     ELSE IF Tr.must # Parses THEN Judge("MustNewTemplate")
     ELSE IF Tr.race # "" THEN Judge(Tr.race)
     ELSE IF ~Parses \/ C.execs = <<>> THEN Judge("accept")
     ELSE ex' = 1 /\ ag' = C.segs /\ UNCHANGED <<out, err, verdict>>
  /\ Tick

(* a writer takes at most `at` bytes *)
Full == X.at >= 0 /\ Len(out) > X.at
Put(s) == out' = out \o s
Rest == Tail(ag)
Seg == Head(ag)

Work ==
  /\ verdict = "run" /\ ex > 0 /\ ag # <<>> /\ err = "" /\ ~Full
  /\ CASE Seg.s = "lit" -> Put(Seg.v) /\ ag' = Rest /\ UNCHANGED err
       [] Seg.s = "mark" -> /\ Put(Solo(Seg.n).out) /\ ag' = Rest
                            /\ err' = Solo(Seg.n).err
       [] Seg.s = "if" -> LET v == ItemList(Seg.key) IN
                          /\ ag' = (IF v.t = "bool" /\ v.b THEN Seg.a ELSE Seg.b) \o Rest
                          /\ UNCHANGED <<out, err>>
       [] Seg.s = "range" -> LET v == ItemList(Seg.key) IN
                             /\ ag' = (IF v.t = "list" THEN FlattenSeq([x \in 1..Len(v.vs) |-> Seg.a]) ELSE <<>>) \o Rest
                             /\ UNCHANGED <<out, err>>
       [] Seg.s = "call" -> ag' = Def(Seg.n) \o Rest /\ UNCHANGED <<out, err>>
  /\ UNCHANGED <<ex, verdict>> /\ Tick

Ended ==
  /\ verdict = "run" /\ ex > 0 /\ (ag = <<>> \/ err # "" \/ Full)
  /\ LET o == Tr.ex[ex]
         want == IF Full THEN SubSeq(out, 1, X.at) ELSE out
         werr == IF Full THEN "w" ELSE err
     \* a node that panics ends the execution; what it had written is left open
     IN IF err = "panic" THEN (IF o.err = "" /\ o.panic = "" THEN Judge("execution " \o ToString(ex) \o ": panic lost")
                                        ELSE IF ex = Len(C.execs) THEN Judge("accept")
                                        ELSE ex' = ex + 1 /\ ag' = C.segs /\ out' = "" /\ err' = "" /\ UNCHANGED verdict)
        ELSE IF o.panic # "" THEN Judge("execution " \o ToString(ex) \o ": panic")
        ELSE IF o.out # want THEN Judge("execution " \o ToString(ex) \o ": output " \o want)
        ELSE IF o.err # werr THEN Judge("execution " \o ToString(ex) \o ": error " \o werr)
        ELSE IF o.after # 0 THEN Judge("execution " \o ToString(ex) \o ": written after the failure")
        ELSE IF ex = Len(C.execs) THEN Judge("accept")
        ELSE ex' = ex + 1 /\ ag' = C.segs /\ out' = "" /\ err' = "" /\ UNCHANGED verdict
  /\ Tick

Report ==
  /\ verdict \notin {"run", "done"}
  /\ IF verdict = "accept" THEN PrintT("ACCEPT " \o Programs[prog].id)
     ELSE PrintT("REJECT " \o Programs[prog].id \o " " \o ToJson([why |-> verdict]))
  /\ verdict' = "done" /\ Tick /\ UNCHANGED <<ex, ag, out, err>>

Next == Parsed \/ Work \/ Ended \/ Report
Spec == Init /\ [][Next]_vars
View == <<prog, steps, verdict>>
\* an execution starts from nothing, whatever happened before
Fresh == [][ex' # ex => out' = "" /\ err' = "" /\ ag' = C.segs]_vars
=============================================================================
