-------------------------------- MODULE Conf --------------------------------
(* Trace validation.  Each line of the file named by CASES is a program       *)
(* together with what the real code did when the harness ran it (tr).  The     *)
(* machine of module Aitch runs the same program step by step; a program is    *)
(* accepted when every rendering agrees with the observed one, as far as       *)
(* property PROP is concerned.                                               *)
EXTENDS Prog, Match

Property == IOEnv.PROP

VARIABLE verdict         \* "run", then "accept" or what disagrees, then "done"
vars == <<pvars, verdict>>

Obs == Programs[prog].tr

Init == PInit /\ verdict = "run"

CMake == /\ verdict = "run" /\ Make
         /\ verdict' = IF (Obs.rs[pos].panic # "") # Refused THEN "panic while declaring"
                       ELSE IF Property = "C13" /\ Obs.rs[pos].ev # <<>> THEN "evaluated while declaring"
                       ELSE verdict
CStep == verdict = "run" /\ (Begin \/ MStep) /\ UNCHANGED verdict
CCompare ==
  /\ verdict = "run" /\ Complete
  /\ LET x == Verdict(Property, run, Obs.rs[pos], Ctx(run.root, Op.cargo)) IN
     IF x = "" THEN EndRender /\ UNCHANGED verdict
     ELSE verdict' = x /\ steps' = steps + 1 /\ UNCHANGED <<prog, pos, busy, hp, run>>
\* asking a node for its type and name
CInfo ==
  /\ verdict = "run" /\ ~busy /\ pos <= Len(Ops) /\ Op.op = "info"
  /\ verdict' = IF Obs.rs[pos].info = InfoOf(hp[Op.id]) THEN verdict ELSE "type or name: " \o Obs.rs[pos].info
  /\ pos' = pos + 1 /\ steps' = steps + 1
  /\ UNCHANGED <<prog, busy, hp, run>>
CFinish ==
  /\ verdict = "run" /\ AllDone
  /\ verdict' = IF Obs.mut # <<>> /\ Property \in {"C06", "C07", "C17"} THEN "arguments modified" ELSE "accept"
  /\ steps' = steps + 1
  /\ UNCHANGED <<prog, pos, busy, hp, run>>
Report ==
  /\ verdict # "run" /\ verdict # "done"
  /\ IF verdict = "accept" THEN PrintT("ACCEPT " \o Programs[prog].id)
     ELSE PrintT("REJECT " \o Programs[prog].id \o " " \o ToString(pos) \o " "
                 \o ToJson([why |-> verdict, out |-> run.out, ev |-> run.ev, err |-> run.err]))
  /\ verdict' = "done" /\ steps' = steps + 1
  /\ UNCHANGED <<prog, pos, busy, hp, run>>

Next == CMake \/ CStep \/ CCompare \/ CInfo \/ CFinish \/ Report
Spec == Init /\ [][Next]_vars
View == <<prog, steps, verdict>>
=============================================================================
