-------------------------------- MODULE Strs --------------------------------
(* Character-level operations on strings.  Go byte strings are transported   *)
(* as Latin-1: one character per byte.                                       *)
EXTENDS Naturals, Sequences, TLC, SequencesExt, IOUtils, Json

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]

\* characters that cannot be written in a TLA+ string literal
Special == JsonDeserialize("chars.json")
NUL == Special.nul
SOH == Special.soh        \* start / end of raw (caller supplied) bytes
STX == Special.stx

\* the number of a byte
Ord(ch) == (CHOOSE j \in 1..256 : Ch(Special.all, j) = ch) - 1

Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

MapCat(F(_), s) == FoldLeft(LAMBDA acc, i : acc \o F(Ch(s, i)), "", [i \in 1..Len(s) |-> i])

HasCh(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

StripNul(s) == IF HasCh(s, NUL) THEN MapCat(LAMBDA c : IF c = NUL THEN "" ELSE c, s) ELSE s

\* join, leaving out empty pieces
JoinNE(ss, d) ==
  FoldLeft(LAMBDA acc, p : IF p = "" THEN acc ELSE IF acc = "" THEN p ELSE acc \o d \o p, "", ss)

Join(ss, d) ==
  FoldLeft(LAMBDA acc, i : IF i = 1 THEN ss[1] ELSE acc \o d \o ss[i], "", [i \in 1..Len(ss) |-> i])

IsPrefixStr(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(***************************************************************************)
(* Escaping.  The characters that could end text, an attribute value or a   *)
(* comment never appear as such; NUL is dropped.                            *)
(***************************************************************************)
EscCh(c) == CASE c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "&" -> "&amp;"
              [] c = "\"" -> "&quot;" [] c = "'" -> "&apos;" [] c = NUL -> ""
              [] OTHER -> c
Escape(s) == MapCat(EscCh, s)

Entities == << [e |-> "&lt;", c |-> "<"], [e |-> "&gt;", c |-> ">"], [e |-> "&amp;", c |-> "&"],
               [e |-> "&quot;", c |-> "\""], [e |-> "&apos;", c |-> "'"],
               [e |-> "&#60;", c |-> "<"], [e |-> "&#62;", c |-> ">"], [e |-> "&#38;", c |-> "&"],
               [e |-> "&#34;", c |-> "\""], [e |-> "&#39;", c |-> "'"],
               [e |-> "&#x3c;", c |-> "<"], [e |-> "&#x3e;", c |-> ">"], [e |-> "&#x26;", c |-> "&"],
               [e |-> "&#x22;", c |-> "\""], [e |-> "&#x27;", c |-> "'"],
               [e |-> "&#x3C;", c |-> "<"], [e |-> "&#x3E;", c |-> ">"],
               [e |-> "&#034;", c |-> "\""], [e |-> "&#039;", c |-> "'"] >>
StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

(* Reading back.  A one-pass automaton over the characters: `skip` counts   *)
(* the characters of an entity still to be passed over, `raw` holds while   *)
(* inside SOH..STX (bytes the caller supplied, copied as they are), `ok`    *)
(* becomes FALSE at a character that should have been escaped.              *)
DecStep(s, a, i, allowed) ==
  LET c == Ch(s, i) IN
  IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
  ELSE IF a.raw THEN [a EXCEPT !.v = @ \o c, !.raw = (c # STX)]
  ELSE IF c = SOH THEN [a EXCEPT !.v = @ \o c, !.raw = TRUE]
  ELSE IF c = "&" THEN
    LET m == {j \in 1..Len(Entities) : StartsAt(s, i, Entities[j].e)} IN
    IF m = {} THEN [a EXCEPT !.v = @ \o c, !.ok = FALSE]
    ELSE LET e == Entities[CHOOSE j \in m : TRUE] IN
         [a EXCEPT !.v = @ \o e.c, !.skip = Len(e.e) - 1]
  ELSE [a EXCEPT !.v = @ \o c,
                 !.ok = @ /\ c \notin {"<", ">", "\"", "'", NUL} \ allowed]

\* allowed: characters the library itself writes as they are
DecodeBut(s, allowed) ==
  IF \A i \in 1..Len(s) : Ch(s, i) \notin {"&", "<", ">", "\"", "'", NUL, SOH}
  THEN [v |-> s, ok |-> TRUE]
  ELSE LET r == FoldLeft(LAMBDA a, i : DecStep(s, a, i, allowed),
                         [v |-> "", ok |-> TRUE, skip |-> 0, raw |-> FALSE],
                         [i \in 1..Len(s) |-> i])
       IN [v |-> r.v, ok |-> r.ok /\ ~r.raw /\ r.skip = 0]
Decode(s) == DecodeBut(s, {})

(***************************************************************************)
(* Names: a letter, then letters, digits, dot, underscore, hyphen, colon.   *)
(***************************************************************************)
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
ValidName(s) ==
  /\ Len(s) >= 1
  /\ Ch(s, 1) \in Letters
  /\ \A i \in 2..Len(s) : Ch(s, i) \in Letters \cup Digits \cup {".", "_", "-", ":"}
=============================================================================
