------------------------------ MODULE MC_Lattice ------------------------------
(***************************************************************************)
(* Properties of the panel geometry, checked over a grid of quadrilaterals *)
(* (swept, tapered, sheared, twisted, mirrored) and panel numbers:         *)
(* cells tile the quadrilateral, mirroring commutes with panelling and     *)
(* keeps the orientation of the normals.                                   *)
(***************************************************************************)
EXTENDS Lattice

CONSTANTS Ns, Offsets

VARIABLES q, n, sym, k
vars == <<q, n, sym, k>>

Z == {"0.0", "0.3"}
Quads == { [a |-> <<x, "1.0", "2.0">>, b |-> <<FAdd(x, o), "3.0", z1>>,
            c |-> <<FAdd(x, FAdd(o, "1.5")), "3.0", z2>>, d |-> <<FAdd(x, "2.0"), "1.0", z3>>]
           : x \in {"1.0"}, o \in Offsets, z1 \in {"2.0", "2.4"}, z2 \in {"2.0", "1.9"}, z3 \in {"2.0", "2.2"} }

Init == q \in Quads /\ n \in Ns /\ sym \in 0..3 /\ k = 1
Next == k < n /\ k' = k + 1 /\ UNCHANGED <<q, n, sym>>
Spec == Init /\ [][Next]_vars

Q == IF sym = 0 THEN q ELSE MirrorQuad(sym, q)
C(i) == Cell(Q, i, n)

Tiles == /\ (k = 1 => VNear(C(1)[1], Q.a, "1e-12") /\ VNear(C(1)[2], Q.b, "1e-12"))
         /\ (k = n => VNear(C(n)[4], Q.d, "1e-12") /\ VNear(C(n)[3], Q.c, "1e-12"))
         /\ (k < n => VNear(C(k)[4], C(k+1)[1], "1e-12") /\ VNear(C(k)[3], C(k+1)[2], "1e-12"))
NormalUnit == FNear(VNorm(PanelNormal(C(k))), "1.0", "1e-12")
\* a normal does not turn over in the image: it is the mirrored normal, up to
\* the sign that keeps all normals of a flat wing on the same side
MirrorCommutes == sym # 0 =>
    LET j == IF sym = 3 THEN n + 1 - k ELSE k
        p == Cell(q, k, n)
        m == C(j)
        mp(i) == MirrorPoint(sym, p[i])
        order == CASE sym = 1 -> <<1, 2, 3, 4>> [] sym = 2 -> <<2, 1, 4, 3>> [] sym = 3 -> <<4, 3, 2, 1>>
    IN \A i \in 1..4 : VNear(m[i], mp(order[i]), "1e-12")
Points == /\ FNear(FDot(VSub(Collocation(C(k)), BoundMid(C(k))), PanelNormal(C(k))), "0.0", "0.2")
          /\ FLt("0.0", FDot(ChordLine(C(k)), VSub(Collocation(C(k)), BoundMid(C(k)))))
          /\ FNear(VNorm(VSub(Collocation(C(k)), BoundMid(C(k)))), FMul("0.5", VNorm(ChordLine(C(k)))), "1e-9")
=============================================================================
