----------------------------- MODULE MC_Panelling -----------------------------
(***************************************************************************)
(* Building the panelling of one wing, step by step: declare the wing, add *)
(* controls (on one or over several segments), divide the segments, number *)
(* the panels patch by patch.  Explored for all shapes.                    *)
(***************************************************************************)
EXTENDS Panelling, Json

CONSTANTS MaxSegs, MaxCtls, NumSs, Syms, CtlEtas, Autos

VARIABLES phase, wing, auto, wss, es, todo
vars == <<phase, wing, auto, wss, es, todo>>

\* three segments of a swept, tapered wing; the second has half the span
P(x, y, z) == <<x, y, z>>
Quads == << [a |-> P("0.0","0.0","0.0"), b |-> P("1.0","2.0","0.0"), c |-> P("2.5","2.0","0.0"), d |-> P("2.0","0.0","0.0")],
            [a |-> P("1.0","2.0","0.0"), b |-> P("1.5","3.0","0.0"), c |-> P("2.5","3.0","0.0"), d |-> P("2.5","2.0","0.0")],
            [a |-> P("1.5","3.0","0.0"), b |-> P("2.5","5.0","0.0"), c |-> P("3.0","5.0","0.0"), d |-> P("2.5","3.0","0.0")] >>

Seg(i, ns, nc) == [uid |-> "s" \o ToString(i), a |-> Quads[i].a, b |-> Quads[i].b, c |-> Quads[i].c, d |-> Quads[i].d,
                   num_s |-> ns, num_c |-> nc, fi |-> "NACA0012", fo |-> "NACA0012"]

Init == /\ phase = "declare"
        /\ \E n \in 1..MaxSegs : \E ns \in [1..n -> NumSs], nc \in {0, 3}, sym \in Syms :
              wing = [uid |-> "w", sym |-> sym, ctls |-> <<>>, segs |-> [ i \in 1..n |-> Seg(i, ns[i], nc) ]]
        /\ auto \in { [c |-> k, s |-> k] : k \in Autos }
        /\ wss = [ i \in DOMAIN wing.segs |-> Fresh ]
        /\ es = <<>> /\ todo = {}

Xs(type) == IF type = "flap" THEN <<"0.7", "0.8", "0.7", "0.75">> ELSE <<"0.2", "0.1", "0.15", "0.1">>

AddCtl == /\ phase = "declare"
          /\ Len(wing.ctls) < MaxCtls
          /\ \E si \in DOMAIN wing.segs : \E so \in si..Len(wing.segs), ty \in {"flap", "slat"}, ea \in CtlEtas, eb \in CtlEtas :
                LET x == Xs(ty)
                    c == [u |-> "c" \o ToString(Len(wing.ctls)), type |-> ty, si |-> si, so |-> so, ea |-> ea, eb |-> eb,
                          x1 |-> x[1], x2 |-> x[2], h1 |-> x[3], h2 |-> x[4], num_c |-> 0, defl |-> "0.0", deflm |-> ""]
                    r == TLCEval(AddWingControl(wing, wss, c))
                IN /\ si = so => FLt(ea, eb)
                   /\ wing' = [wing EXCEPT !.ctls = Append(@, c)]
                   /\ wss' = r.wss
                   /\ phase' = IF r.ok THEN "declare" ELSE "refused"
          /\ UNCHANGED <<auto, es, todo>>

NumS(i) == CHOOSE k \in SegNumS(wing, wing.segs[i], auto) : TRUE

Divide == /\ phase = "declare"
          /\ wss' = TLCEval([ i \in DOMAIN wing.segs |-> Divided(wing.segs[i], wss[i], NumS(i)) ])
          /\ phase' = "number"
          /\ todo' = UNION { { <<i, j, ty, m>> : j \in DOMAIN wss'[i], ty \in {"segment", "flap", "slat"}, m \in Sides(wing) }
                             : i \in DOMAIN wing.segs }
          /\ UNCHANGED <<wing, auto, es>>

\* panels may be numbered in any order of the patches; one order is enough here
Number == /\ phase = "number"
          /\ LET Step(acc, k) ==
                    LET t == k  strip == wss[t[1]][t[2]]
                    IN IF t[3] \notin PatchTypes(strip) THEN acc
                       ELSE LET n == CHOOSE q \in PatchNumC(wing, wing.segs[t[1]], strip, t[3], auto) : TRUE
                            IN [N |-> acc.N + n,
                                es |-> Append(acc.es, [s |-> t[1], strip |-> t[2], type |-> t[3], mirror |-> t[4], n |-> n,
                                                       idx |-> [ q \in 1..n |-> acc.N + q - 1 ]])]
                 r == TLCEval(FoldLeft(Step, [N |-> 0, es |-> <<>>], SetToSeq(todo)))
             IN es' = r.es
          /\ phase' = "done"
          /\ todo' = {}
          /\ UNCHANGED <<wing, auto, wss>>

Next == AddCtl \/ Divide \/ Number
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
SegsTiled == \A i \in DOMAIN wss : TilesSpan(wss[i]) /\ NoSlivers(wss[i]) /\ ChordOrder(wss[i]) /\ NoSteps(wss[i], "1e-9")
\* at a segment border a control has one edge position
BordersMeet == \A i \in 1..(Len(wss) - 1) : \A ty \in {"flap", "slat"} :
    LET p == wss[i][Len(wss[i])][ty]  q == wss[i+1][1][ty]
    IN (~IsNone(p) /\ p.u = q.u) => FNear(p.x2, q.x1, "1e-9") /\ FNear(p.h2, q.h1, "1e-9")
ControlsKept == phase # "refused" => \A k \in DOMAIN wing.ctls : LET c == wing.ctls[k] IN
    \A i \in DOMAIN wss : \A j \in DOMAIN wss[i] :
        (i > c.si /\ i < c.so) => wss[i][j][c.type].u = c.u
Numbered == phase = "done" => Partition(es)
Divisions == phase = "done" => \A i \in DOMAIN wss : \A k \in 1..(NumS(i) - 1) :
    LET eta == FMul(ToString(k), FDiv("1.0", ToString(NumS(i))))
    IN \E b \in ToSet(Borders(wss[i])) : FLe(FAbs(FSub(b, eta)), MinEta)
FullRefines == phase' = "declare" => \A i \in DOMAIN wss : Refines(wss[i], wss'[i])
OnlyRefined == [][FullRefines]_vars

Emit == phase \in {"done", "refused"} =>
    PrintT("@@CASE@@" \o ToJson([segs |-> Len(wing.segs), sym |-> wing.sym, num_c |-> wing.segs[1].num_c,
        num_s |-> [ i \in DOMAIN wing.segs |-> wing.segs[i].num_s ], auto |-> auto.c, phase |-> phase,
        ctls |-> [ k \in DOMAIN wing.ctls |-> [type |-> wing.ctls[k].type, si |-> wing.ctls[k].si, so |-> wing.ctls[k].so,
                   ea |-> wing.ctls[k].ea, eb |-> wing.ctls[k].eb, x |-> <<wing.ctls[k].x1, wing.ctls[k].x2, wing.ctls[k].h1, wing.ctls[k].h2>>]] ]))
=============================================================================
