----------------------------- MODULE LatticeObs -----------------------------
(***************************************************************************)
(* What is asked of the observed panels of a patch.                        *)
(***************************************************************************)
EXTENDS Lattice, TraceBase

\* absolute tolerance for coordinates: the aircraft is a few metres large
Tol == "1e-9"
Size == "50.0"
Near(a, b) == FNear(a, b, FMul("1e-9", FAdd("1.0", FAbs(b))))

\* the failing clauses about the panels of patch e on the quadrilateral q,
\* dir is the direction of the free stream
PatchFailures(q, dir, e) ==
    LET n == e.n
        cell == TLCEval([ k \in 1..n |-> Cell(q, k, n) ])
        all(P(_)) == \A k \in 1..n : P(k)
        panels(k) == \A i \in 1..4 : VNear(e.p[k][i], cell[k][i], Tol)
        bound(k) == VNear(e.v[k][2], BoundLeft(cell[k]), Tol) /\ VNear(e.v[k][3], BoundRight(cell[k]), Tol)
        trail(k) == Trails(dir, e.v[k][2], e.v[k][1], Size) /\ Trails(dir, e.v[k][3], e.v[k][4], Size)
        coll(k) == VNear(e.c[k], Collocation(cell[k]), Tol)
        mid(k) == VNear(e.m[k], BoundMid(cell[k]), Tol)
        norm(k) == VNear(e.nv[k], PanelNormal(cell[k]), "1e-8")
        area(k) == Near(e.a[k], Area(cell[k]))
    IN Failing(<<
        <<"AllPanelsOfPatch", Len(e.p) = n /\ Len(e.v) = n /\ Len(e.c) = n /\ Len(e.nv) = n /\ Len(e.a) = n>>,
        <<"PanelsAreGridCells", all(panels)>>,
        <<"BoundVortexOnQuarterChord", all(bound)>>,
        <<"TrailingLegsFollowFreeStream", all(trail)>>,
        <<"CollocationAtThreeQuarters", all(coll)>>,
        <<"BoundVortexMidpoint", all(mid)>>,
        <<"UnitNormalAtCollocationPoint", all(norm)>>,
        <<"PanelArea", all(area)>> >>)
=============================================================================
