-------------------------------- MODULE Prog --------------------------------
(* Programs: histories of declarations and renderings over a heap of nodes.   *)
(*   case.ops: [op |-> "make", id, n]  declare node n and keep it as id        *)
(*             [op |-> "render", id, data, cargo]  render node id              *)
(* Declared nodes never change: `heap` only ever gets new names.               *)
(* One initial state for each program in Programs; the machine of module      *)
(* Aitch takes one step per transition.                                       *)
EXTENDS Aitch

\* sequence of [id |-> string, case |-> [ops |-> ...], ...]
Programs == ndJsonDeserialize(IOEnv.CASES)

VARIABLES prog,    \* which program
          pos,     \* its next operation
          busy,    \* a rendering is going on
          hp,      \* heap: name -> declared node
          run,     \* the rendering machine
          steps    \* number of steps taken
pvars == <<prog, pos, busy, hp, run, steps>>

Case == Programs[prog].case
Ops == Case.ops
Op == Ops[pos]
EmptyHeap == [x \in {} |-> NilN]
NoCounts == [x \in {} |-> 0]

\* with the panic switch on, an invalid name makes the declaration panic: there is no node then
Refused == ("panics" \in DOMAIN Case /\ Case.panics /\ BadName(Op.n)) \/ BadHeaders(Op.n)

PInit ==
  /\ prog \in 1..Len(Programs)
  /\ pos = 1 /\ busy = FALSE /\ steps = 0
  /\ hp = EmptyHeap
  /\ run = Idle(NoCounts)

Make ==
  /\ ~busy /\ pos <= Len(Ops) /\ Op.op = "make"
  /\ hp' = (Op.id :> IF Refused THEN NilN ELSE Declare(hp, Op.n)) @@ hp
  /\ pos' = pos + 1 /\ steps' = steps + 1
  /\ UNCHANGED <<prog, busy, run>>

Begin ==
  /\ ~busy /\ pos <= Len(Ops) /\ Op.op = "render"
  /\ run' = Start(hp[Op.id], Ctx(Op.data, Op.cargo), run.cnt)
  /\ busy' = TRUE /\ steps' = steps + 1
  /\ UNCHANGED <<prog, pos, hp>>

MStep ==
  /\ busy /\ ~Done(run)
  /\ run' = Step(run) /\ steps' = steps + 1
  /\ UNCHANGED <<prog, pos, busy, hp>>

Complete == busy /\ Done(run)      \* the rendering of Op is complete, its result is run

EndRender ==
  /\ Complete
  /\ pos' = pos + 1 /\ busy' = FALSE /\ steps' = steps + 1
  /\ UNCHANGED <<prog, hp, run>>

AllDone == ~busy /\ pos > Len(Ops)

PNext == Make \/ Begin \/ MStep \/ EndRender
PView == <<prog, steps>>

(* true at every step of every rendering: a start tag has no two attributes    *)
(* of one name, and no two texts follow each other                            *)
Sane ==
  /\ \A k \in 1..Len(run.out) : run.out[k].k = "tag" =>
       \A a, b \in 1..Len(run.out[k].as) : run.out[k].as[a].n = run.out[k].as[b].n => a = b
  /\ \A k \in 1..Len(run.out) - 1 : ~(run.out[k].k = "text" /\ run.out[k + 1].k = "text")
=============================================================================
