------------------------------ MODULE WriterMC ------------------------------
(* All pieces, plans and callback errors, for outputs of up to MaxLen bytes.  *)
(* `out` is the real content: the numbers of the bytes taken, in order.       *)
EXTENDS Writer, TLC
MaxLen == 7
VARIABLE out
Plans == [at : 0..MaxLen + 1, kind : Kinds, rec : BOOLEAN]
Init == \E t \in 0..MaxLen, p \in Plans : WInit(t, p) /\ out = <<>>
Take(k) == out \o [j \in 1..k |-> pos + j]
Next == \/ \E len \in 1..MaxLen : WriteOk(len) /\ out' = Take(len)
        \/ \E len \in 1..MaxLen : WriteFails(len) /\ out' = Take(Taken(plan.at, plan.kind, pos, len))
        \/ \E e \in {"", "cb"} : Return(e) /\ UNCHANGED out
Spec == Init /\ [][Next]_<<wvars, out>> /\ WF_<<wvars, out>>(Next)
Prefix == out = [j \in 1..got |-> j]
Sticky == [][err = "w" => err' = "w" /\ got' = got]_<<wvars, out>>
Returns == <>over
=============================================================================
