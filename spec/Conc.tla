-------------------------------- MODULE Conc --------------------------------
(* Any number of renderings of one template at the same time.  Each rendering *)
(* is the machine of module Aitch with its own context and writer; the         *)
(* template (heap hp) is common to all.  A transition is a step of any one of  *)
(* them, so the behaviours are all the interleavings.                         *)
(*                                                                           *)
(* Alone: what a rendering has written when it is done is what it writes when  *)
(* nothing else is going on, and nobody has changed the template.             *)
(*                                                                           *)
(* With SharedScratch the attribute being written is kept in one place for     *)
(* all: a faulty design, for which TLC has to find a counterexample (a         *)
(* control that the universe and the invariant can tell).                     *)
EXTENDS Aitch
CONSTANT SharedScratch

Programs == ndJsonDeserialize(IOEnv.CASES)

VARIABLES prog, hp, runs, solo, scratch
vars == <<prog, hp, runs, solo, scratch>>

Ops(p) == Programs[p].case.ops
Makes(p) == SelectSeq(Ops(p), LAMBDA o : o.op = "make")
Renders(p) == SelectSeq(Ops(p), LAMBDA o : o.op = "render")
NoCounts == [x \in {} |-> 0]
EmptyHeap == [x \in {} |-> NilN]
Built(p) == FoldLeft(LAMBDA h, o : (o.id :> Declare(h, o.n)) @@ h, EmptyHeap, Makes(p))
Begun(h, p) == LET rs == Renders(p) IN
               [x \in 1..Len(rs) |-> Start(h[rs[x].id], Ctx(rs[x].data, rs[x].cargo), NoCounts)]
Scr(r) == [bs |-> r.bs, ps |-> r.ps, tag |-> r.tag]

Init ==
  /\ prog \in 1..Len(Programs)
  /\ hp = Built(prog)
  /\ runs = Begun(hp, prog)
  /\ solo = [x \in 1..Len(runs) |-> LET r == Run(runs[x]) IN [out |-> r.out, ev |-> r.ev, err |-> r.err]]
  /\ scratch = Scr(Idle(NoCounts))

StepOf(t) ==
  /\ ~Done(runs[t])
  /\ LET r == IF SharedScratch THEN [runs[t] EXCEPT !.bs = scratch.bs, !.ps = scratch.ps, !.tag = scratch.tag] ELSE runs[t]
         s == Step(r)
     IN /\ runs' = [runs EXCEPT ![t] = s]
        /\ scratch' = IF SharedScratch THEN Scr(s) ELSE scratch
  /\ UNCHANGED <<prog, hp, solo>>

Next == \E t \in 1..Len(runs) : StepOf(t)
Spec == Init /\ [][Next]_vars

Alone == \A t \in 1..Len(runs) : Done(runs[t]) =>
           [out |-> runs[t].out, ev |-> runs[t].ev, err |-> runs[t].err] = solo[t]
Prefix == \A t \in 1..Len(runs) : SharedScratch \/ IsPrefix(runs[t].ev, solo[t].ev)
=============================================================================
