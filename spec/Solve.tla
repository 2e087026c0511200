-------------------------------- MODULE Solve --------------------------------
(***************************************************************************)
(* A complete vortex-lattice analysis of a few panels, in the              *)
(* specification itself: system, solution by Gaussian elimination with     *)
(* partial pivoting, loads.  Used to check the laws of the method on the   *)
(* specification (MC_Vlm).                                                 *)
(***************************************************************************)
EXTENDS Vlm

\* rows of an augmented matrix [A | b]
RowMinus(r, k, p) == [ j \in DOMAIN r |-> FSub(r[j], FMul(k, p[j])) ]
PivotRow(M, c) == CHOOSE i \in c..Len(M) : \A j \in c..Len(M) : FLe(FAbs(M[j][c]), FAbs(M[i][c]))
Swap(M, i, j) == [ M EXCEPT ![i] = M[j], ![j] = M[i] ]
RECURSIVE Eliminate(_, _)
Eliminate(M, c) ==
    IF c > Len(M) THEN M
    ELSE LET S == TLCEval(Swap(M, c, PivotRow(M, c)))
             E == TLCEval([ i \in DOMAIN S |-> IF i = c THEN S[i]
                                               ELSE TLCEval(RowMinus(S[i], FDiv(S[i][c], S[c][c]), S[c])) ])
         IN Eliminate(E, c + 1)
SolveSystem(A, b) ==
    LET M == TLCEval(Eliminate(TLCEval([ i \in DOMAIN A |-> Append(A[i], b[i]) ]), 1))
    IN TLCEval([ i \in DOMAIN M |-> FDiv(M[i][Len(M) + 1], M[i][i]) ])

Infinite == "10000.0"
HorseshoeOf(p, pt) ==
    LET l == BoundLeft(p)  r == BoundRight(p)  d == VScale(Infinite, WindDir(pt))
    IN << VAdd(l, d), l, r, VAdd(r, d) >>

Analyse(panels, pt, refs, eps) ==
    LET vs == TLCEval([ i \in DOMAIN panels |-> HorseshoeOf(panels[i], pt) ])
        cs == TLCEval([ i \in DOMAIN panels |-> Collocation(panels[i]) ])
        ns == TLCEval([ i \in DOMAIN panels |-> PanelNormal(panels[i]) ])
        A == TLCEval([ i \in DOMAIN panels |-> TLCEval(MatrixRow(cs[i], ns[i], vs, eps)) ])
        b == TLCEval([ i \in DOMAIN panels |-> RightSide(pt, refs.gcenter, cs[i], ns[i]) ])
        g == TLCEval(SolveSystem(A, b))
        mid(i) == BoundMid(panels[i])
        f == TLCEval([ i \in DOMAIN panels |-> PanelForce(pt, refs.gcenter, vs[i], mid(i), g[i], TLCEval(Induced(mid(i), vs, g, eps))) ])
        m == TLCEval([ i \in DOMAIN panels |-> PanelMoment(refs.rcenter, mid(i), f[i]) ])
        tot == TLCEval(Totals(pt, VSum(f), VSum(m)))
    IN TLCEval([ gamma |-> g, A |-> A, b |-> b, vs |-> vs, cs |-> cs, ns |-> ns, force |-> f, totals |-> tot,
                 coeffs |-> Coefficients(pt, refs, tot) ])
=============================================================================
