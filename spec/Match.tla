-------------------------------- MODULE Match -------------------------------
(* Comparing a rendering of the machine with what the real code wrote, as    *)
(* far as one property is concerned.                                         *)
(*   observed token: [k, n, v, src, as], attribute: [n, b, v, src]           *)
(*   v is the value as read back, src the bytes as written                   *)
EXTENDS Aitch

\* an attribute is there at most once, and is the right one
SameAttr(a, o, deep) ==
  /\ a.n = o.n
  /\ a.b = o.b
  /\ deep => (a.v = o.v \/ (a.tr # "" /\ a.v \o a.tr = o.v))
AttrsInOrder(as, os, deep) ==
  Len(as) = Len(os) /\ \A i \in 1..Len(as) : SameAttr(as[i], os[i], deep)
AttrsAnyOrder(as, os, deep) ==
  /\ Len(as) = Len(os)
  /\ \A i \in 1..Len(as) : \E j \in 1..Len(os) : SameAttr(as[i], os[j], deep)

SameTok(t, o, attrs(_, _)) ==
  /\ t.k = o.k /\ t.n = o.n
  /\ IF t.k = "tag" THEN attrs(t.as, o.as) ELSE t.v = o.v

SameToks(ts, os, attrs(_, _)) ==
  Len(ts) = Len(os) /\ \A i \in 1..Len(ts) : SameTok(ts[i], os[i], attrs)

Tags(ts) == SelectSeq(ts, LAMBDA t : t.k = "tag")

\* what is written decodes to v and contains no character that should have been escaped
\* (header maps are written with apostrophes of their own, inside double quotes)
CleanSrc(o) == LET d == DecodeBut(o.src, IF o.n = "hx-headers" THEN {"'"} ELSE {}) IN d.ok /\ d.v = o.v
AllClean(os) ==
  \A i \in 1..Len(os) :
    CASE os[i].k = "tag" -> \A j \in 1..Len(os[i].as) : os[i].as[j].b \/ CleanSrc(os[i].as[j])
      [] os[i].k \in {"text", "comment"} -> CleanSrc(os[i])
      [] OTHER -> TRUE

Full(ts, os)    == SameToks(ts, os, LAMBDA a, o : AttrsAnyOrder(a, o, TRUE))
Shape(ts, os)   == SameToks(ts, os, LAMBDA a, o : TRUE)
AttrSets(ts, os) == LET x == Tags(ts) y == Tags(os) IN SameToks(x, y, LAMBDA a, o : AttrsAnyOrder(a, o, TRUE))
AttrOrder(ts, os) == LET x == Tags(ts) y == Tags(os) IN SameToks(x, y, LAMBDA a, o : AttrsInOrder(a, o, FALSE))

IsErrEv(e) == IsPrefixStr("err:", e)
\* callbacks after the first failing one are of no interest
UpToErr(evs) == LET S == {i \in 1..Len(evs) : IsErrEv(evs[i])} IN
                IF S = {} THEN evs ELSE SubSeq(evs, 1, CHOOSE i \in S : \A j \in S : i <= j)



(* does the observed rendering o = [toks, ev, err, panic, outs, ctx] agree     *)
(* with the machine's r (started in context cx), as far as property p is      *)
(* concerned?  "" if so, otherwise what disagrees                             *)
Verdict(p, r, o, cx) ==
  \* a callback that panics is passed on to the caller or turned into an error; the renderings after it are what counts
  CASE r.err = "panic" -> IF o.panic = "" /\ o.err = "" THEN "panic lost" ELSE ""
    [] o.panic # "" -> "panic"
    [] p = "C01" -> IF ~AllClean(o.toks) THEN "unescaped" ELSE IF ~Full(r.out, o.toks) THEN "tokens" ELSE ""
    [] p = "C02" -> IF ~Shape(r.out, o.toks) THEN "tree" ELSE ""
    [] p = "C03" -> IF ~AttrSets(r.out, o.toks) THEN "attributes" ELSE ""
    [] p = "C05" -> IF o.outs # 1 THEN "outputs differ"
                    ELSE IF ~AttrOrder(r.out, o.toks) THEN "attribute order"
                    ELSE IF r.ev # o.ev THEN "evaluation order" ELSE ""
    [] p \in {"C09"} -> IF r.err # o.err THEN "error"
                        ELSE IF ~Full(r.out, o.toks) THEN "tokens" ELSE ""
    [] p = "C07" -> IF ~Full(r.out, o.toks) THEN "tokens" ELSE IF r.err # o.err THEN "error"
                    ELSE IF UpToErr(r.ev) # UpToErr(o.ev) THEN "callbacks" ELSE IF o.ctx # DigCtx(cx) THEN "context changed" ELSE ""
    [] p = "C10" /\ o.ctx # DigCtx(cx) -> "context changed"
    [] p \in {"C10", "C13"} ->
                    IF UpToErr(r.ev) # UpToErr(o.ev) THEN "callbacks"
                    ELSE IF ~Full(r.out, o.toks) THEN "tokens" ELSE ""
    [] OTHER -> IF ~Full(r.out, o.toks) THEN "tokens"
                ELSE IF r.err # o.err THEN "error" ELSE ""
=============================================================================
