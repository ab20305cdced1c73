------------------------------- MODULE Faults -------------------------------
(* Trace validation of renderings with failing writers against Writer.        *)
(* Each line of CASES is a program with the fault plans it was run with:       *)
(*   tr.full  length of the fault-free output,  tr.e  its error                *)
(*   tr.pre   [len, err, cerr, panic]: rendered with an error in the context   *)
(*   tr.plans: [at, kind, rec, ok, fail, got, pre, after, err, cerr, panic]    *)
(*     ok     sizes of the pieces taken without an error                      *)
(*     fail   << size >> of the piece at which the writer failed, << >> if none *)
(*     got    number of bytes taken, pre: they are the first bytes of the      *)
(*            fault-free output, after: bytes handed over after the failure    *)
EXTENDS Integers, TLC, SequencesExt, IOUtils, Json, Writer

Programs == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,      \* the program
          f,      \* its fault plan, 0: the rendering with an error in the context
          stage   \* "ok", "fail", "end", then "next"
vars == <<wvars, c, f, stage>>

Tr == Programs[c].tr
P == Tr.plans[f]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
NoPlan == [at |-> 0, kind |-> "part", rec |-> FALSE]

Init == \E x \in 1..Len(Programs) : c = x /\ f = 0 /\ stage = "next" /\ WInit(Programs[x].tr.full, NoPlan)

Reject(why) == PrintT("REJECT " \o Programs[c].id \o " " \o ToString(f) \o " " \o why) /\ stage' = "done" /\ UNCHANGED <<wvars, c, f>>

NextPlan ==
  /\ stage = "next" /\ f < Len(Tr.plans)
  /\ f' = f + 1 /\ stage' = "ok" /\ c' = c
  /\ plan' = [at |-> Tr.plans[f + 1].at, kind |-> Tr.plans[f + 1].kind, rec |-> Tr.plans[f + 1].rec]
  /\ pos' = 0 /\ got' = 0 /\ err' = "" /\ over' = FALSE /\ total' = total

\* the pieces before the failure, all at once (a sequence of WriteOk)
Pieces ==
  /\ stage = "ok"
  /\ IF (\A x \in 1..Len(P.ok) : P.ok[x] >= 1) /\ Sum(P.ok) <= plan.at /\ Sum(P.ok) <= total
     THEN /\ pos' = Sum(P.ok) /\ got' = Sum(P.ok) /\ stage' = "fail"
          /\ UNCHANGED <<total, plan, err, over, c, f>>
     ELSE Reject("pieces")
Failing ==
  /\ stage = "fail"
  /\ IF P.fail = <<>> THEN stage' = "end" /\ UNCHANGED <<wvars, c, f>>
     ELSE IF ENABLED WriteFails(P.fail[1]) THEN WriteFails(P.fail[1]) /\ stage' = "end" /\ UNCHANGED <<c, f>>
     ELSE Reject("more output than without the fault")
Ending ==
  /\ stage = "end"
  /\ CASE P.panic # "" -> Reject("panic " \o P.panic)
       [] P.after # 0 -> Reject("written after the failure")
       [] P.got # got \/ ~P.pre -> Reject("not a prefix of the fault-free output")
       [] ~ENABLED Return(Tr.e) -> Reject("output incomplete")
       [] P.err # (IF err = "" THEN Tr.e ELSE err) -> Reject("error " \o P.err)
       [] P.cerr # (IF err = "" THEN Tr.e ELSE err) -> Reject("error in context " \o P.cerr)
       [] OTHER -> Return(Tr.e) /\ stage' = "next" /\ UNCHANGED <<c, f>>
Pre ==
  /\ stage = "next" /\ f = Len(Tr.plans)
  /\ IF Tr.pre.len # 0 \/ Tr.pre.err # "pre" \/ Tr.pre.cerr # "pre" \/ Tr.pre.panic # "" THEN Reject("error in the context before")
     ELSE PrintT("ACCEPT " \o Programs[c].id) /\ stage' = "done" /\ UNCHANGED <<wvars, c, f>>
Next == NextPlan \/ Pieces \/ Failing \/ Ending \/ Pre
Spec == Init /\ [][Next]_vars
View == <<c, f, stage>>
=============================================================================
