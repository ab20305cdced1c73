------------------------------- MODULE Writer -------------------------------
(* The contract between a rendering and its writer (property C08).            *)
(* A rendering hands its bytes to the writer in pieces of any size.  The      *)
(* writer fails at byte position `at` (the first piece that would go past it): *)
(*   kind "part"  it takes the bytes up to `at` and reports an error           *)
(*        "none"  it takes nothing of that piece and reports an error          *)
(*        "full"  it takes all of that piece, and reports an error all the same *)
(* Afterwards it would either work again (rec) or fail with another error.    *)
(* The first error is kept, and from then on nothing is handed to the writer. *)
EXTENDS Naturals, Sequences

VARIABLES total,   \* length of the fault-free output
          plan,    \* [at, kind, rec]
          pos,     \* bytes handed over without an error so far
          got,     \* bytes taken by the writer
          err,     \* first error: "" none, "w" the planned one, else that of a callback
          over     \* the rendering has returned
wvars == <<total, plan, pos, got, err, over>>

Kinds == {"part", "none", "full"}

WInit(t, p) == total = t /\ plan = p /\ pos = 0 /\ got = 0 /\ err = "" /\ over = FALSE

Taken(at, kind, from, len) == CASE kind = "part" -> at - from [] kind = "none" -> 0 [] kind = "full" -> len

\* a piece that is taken whole
WriteOk(len) ==
  /\ ~over /\ err = "" /\ len >= 1 /\ pos + len <= total
  /\ pos + len <= plan.at
  /\ pos' = pos + len /\ got' = got + len
  /\ UNCHANGED <<total, plan, err, over>>

\* the piece at which the writer fails
WriteFails(len) ==
  /\ ~over /\ err = "" /\ len >= 1 /\ pos + len <= total
  /\ pos + len > plan.at
  /\ got' = got + Taken(plan.at, plan.kind, pos, len)
  /\ err' = "w"
  /\ UNCHANGED <<total, plan, pos, over>>

\* the rest of the rendering goes on without writing: nothing happens to the output

\* it returns; e is the error of a callback that failed at the end of the output, "" if none
Return(e) ==
  /\ ~over /\ (err # "" \/ pos = total)
  /\ over' = TRUE
  /\ err' = IF err = "" THEN e ELSE err
  /\ UNCHANGED <<total, plan, pos, got>>

(* what must hold, whatever the sizes of the pieces and the plan *)
Complete == over /\ err # "w" => got = total
FailedIfReached == over => (err = "w" <=> plan.at < total)
ExactPrefix == err = "w" /\ plan.kind = "part" => got = plan.at
NotBeyond == got <= total /\ (err = "" => got = pos)
=============================================================================
