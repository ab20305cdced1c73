-------------------------------- MODULE Sched -------------------------------
(* The schedules under which concurrent renderings of the real code are run.  *)
(* A rendering passes a number of gates (one before every write and callback); *)
(* a schedule is a sequence of pieces <<rendering, gates passed>>, after which  *)
(* the renderings finish.  For each line [id, gates] of CASES:                 *)
(*   all interleavings, when there are few,                                   *)
(*   all schedules with two preemptions (three renderings: one of each),       *)
(*   sparser ones with four preemptions, and round robins,                    *)
(* positions being thinned out where a rendering passes more than K gates.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Thorough == IOEnv.TIER = "thorough"
K2 == IF Thorough THEN 26 ELSE 9
K4 == IF Thorough THEN 5 ELSE 3
Cases == ndJsonDeserialize(IOEnv.CASES)

\* about K positions in lo..m
Pos(lo, m, K) == IF m - lo < K THEN lo..m ELSE {x \in lo..m : (x - lo) % ((m - lo) \div K + 1) = 0} \cup {m}

RECURSIVE Inter(_, _)
Inter(a, b) == IF a = 0 /\ b = 0 THEN {<<>>}
               ELSE (IF a > 0 THEN {<< <<0, 1>> >> \o s : s \in Inter(a - 1, b)} ELSE {})
                    \cup (IF b > 0 THEN {<< <<1, 1>> >> \o s : s \in Inter(a, b - 1)} ELSE {})
Few(g) == Len(g) = 2 /\ g[1] + g[2] <= 8

Two(g) == UNION { {<< <<a, x>>, <<b, y>> >> : x \in Pos(0, g[a + 1], K2), y \in Pos(1, g[b + 1], K2)} :
                  <<a, b>> \in {p \in (0..Len(g) - 1) \X (0..Len(g) - 1) : p[1] # p[2]} }
Three(g) == IF Len(g) < 3 THEN {}
            ELSE {<< <<0, x>>, <<1, y>>, <<2, z>> >> : x \in Pos(1, g[1], K4), y \in Pos(1, g[2], K4), z \in Pos(1, g[3], K4)}
Four(g) == {<< <<0, x>>, <<1, y>>, <<0, u>>, <<1, v>> >> :
              x \in Pos(1, g[1], K4), y \in Pos(1, g[2], K4), u \in Pos(1, g[1], K4), v \in Pos(1, g[2], K4)}
MaxOf(g) == FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, 0, g)
Robin(g, q) == [x \in 1..(Len(g) * (MaxOf(g) \div q + 1)) |-> <<(x - 1) % Len(g), q>>]

Scheds(g) == (IF Few(g) THEN Inter(g[1], g[2]) ELSE {}) \cup Two(g) \cup Three(g) \cup Four(g)
             \cup {Robin(g, 1), Robin(g, 2), Robin(g, 3), Robin(g, 7)}

ASSUME ndJsonSerialize(IOEnv.OUT, [x \in 1..Len(Cases) |-> [id |-> Cases[x].id, scheds |-> SetToSeq(Scheds(Cases[x].gates))]])

VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
