------------------------------ MODULE MC_Tiling ------------------------------
(***************************************************************************)
(* All histories of up to MaxOps requests on one segment, over positions   *)
(* chosen to hit every case: coinciding, almost coinciding (closer than    *)
(* 1 %), beyond, inside and at the ends of earlier divisions and controls. *)
(***************************************************************************)
EXTENDS TilingObs, Json

CONSTANTS MaxOps, Etas, DivEtas, Edges

VARIABLES ss, hist, last
vars == <<ss, hist, last>>

\* a tapered, swept segment
Seg == [a |-> <<"0.0","0.0","0.0">>, b |-> <<"1.5","4.0","0.5">>,
        c |-> <<"2.5","4.0","0.5">>, d |-> <<"3.0","0.0","0.0">>]

Ends == Etas \cup {"0.0", "1.0"}
\* edge and hinge positions at both ends
FlapShape(k) == CASE k = 1 -> <<"0.7", "0.7", "0.7", "0.7">>
                  [] k = 2 -> <<"0.8", "0.6", "0.75", "0.65">>
                  [] k = 3 -> <<"0.25", "0.3", "0.25", "0.3">>      \* overlaps a slat
SlatShape(k) == CASE k = 1 -> <<"0.2", "0.2", "0.2", "0.2">>
                  [] k = 2 -> <<"0.1", "0.26", "0.1", "0.2">>
                  [] k = 3 -> <<"0.65", "0.7", "0.6", "0.7">>       \* overlaps a flap

Init == ss = Fresh /\ hist = <<>> /\ last = "none"

Divide == /\ Len(hist) < MaxOps
          /\ \E e \in DivEtas :
                /\ ss' = AddBorder(Seg, ss, e)
                /\ hist' = Append(hist, [op |-> "div", e |-> e])
                /\ last' = IF Inside(e) THEN "ok" ELSE "refused"

Control == /\ Len(hist) < MaxOps
           /\ \E ea \in Ends, eb \in Ends, ty \in {"flap", "slat"}, k \in Edges :
                 LET x == IF ty = "flap" THEN FlapShape(k) ELSE SlatShape(k)
                     c == [u |-> "c" \o ToString(Len(hist) + 1), type |-> ty, ea |-> ea, eb |-> eb,
                           x1 |-> x[1], x2 |-> x[2], h1 |-> x[3], h2 |-> x[4]]
                     r == AddControl(Seg, ss, c)
                 IN /\ FLt(ea, eb)
                    /\ ss' = r.ss
                    /\ hist' = Append(hist, [op |-> "ctl", c |-> c])
                    /\ last' = IF r.ok THEN "ok" ELSE "refused"

Next == Divide \/ Control
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Tiles == TilesSpan(ss) /\ NoSlivers(ss) /\ ChordOrder(ss) /\ NoSteps(ss, "1e-9")

\* A control covers exactly the strips between its ends, to within 1 %
Placed == \A k \in DOMAIN hist :
    (hist[k].op = "ctl" /\ (k < Len(hist) \/ last = "ok")) =>
       LET c == hist[k].c IN \A i \in DOMAIN ss :
          /\ (ss[i][c.type].u = c.u) => /\ FLt(FSub(c.ea, ss[i].ea), MinEta)
                                        /\ FLt(FSub(ss[i].eb, c.eb), MinEta)
Covers == \A k \in DOMAIN hist :
    (hist[k].op = "ctl" /\ k = Len(hist) /\ last = "ok") =>
       LET c == hist[k].c IN \A i \in DOMAIN ss :
          (FLe(FAdd(c.ea, MinEta), ss[i].ea) /\ FLe(ss[i].eb, FSub(c.eb, MinEta))) => ss[i][c.type].u = c.u

\* Requests only refine: no border and no part of a control ever disappears
OnlyRefined == [][Refines(ss, ss')]_vars

Emit == (Len(hist) = MaxOps \/ (last = "refused" /\ Len(hist) > 0)) =>
            PrintT("@@CASE@@" \o ToJson([hist |-> hist, last |-> last, n |-> Len(ss)]))
\* Stop after a refusal: the program gives up there
Continue == last # "refused"
=============================================================================
