-------------------------------- MODULE MC_Vlm --------------------------------
(***************************************************************************)
(* The laws of the vortex-lattice method, checked on the specification:    *)
(* the Biot-Savart law, flow tangency of the solution, similarity,         *)
(* superposition, and the symmetry of flows over symmetric wings, over     *)
(* shapes x flight points of wings with a few panels.                      *)
(***************************************************************************)
EXTENDS Solve

CONSTANTS Ns, Alphas, Betas

Shapes == {
  [a |-> <<"0.0", "0.0", "0.0">>, b |-> <<"0.0", "3.0", "0.0">>, c |-> <<"1.0", "3.0", "0.0">>, d |-> <<"1.0", "0.0", "0.0">>],
  [a |-> <<"0.0", "0.5", "1.0">>, b |-> <<"1.2", "3.0", "1.4">>, c |-> <<"1.9", "3.0", "1.3">>, d |-> <<"1.5", "0.5", "1.05">>] }
RateSets == { <<"0.0", "0.0", "0.0">>, <<"0.5", "0.0", "-0.3">>, <<"0.0", "0.4", "0.0">> }

VARIABLES shape, n, sym, pt, phase, sol
vars == <<shape, n, sym, pt, phase, sol>>

Eps == "1e-6"
Refs == [area |-> "4.0", chord |-> "1.2", span |-> "6.0", gcenter |-> <<"0.5", "0.0", "0.1">>, rcenter |-> <<"0.25", "0.0", "0.0">>]
Panels == LET q == shape
              half == [ k \in 1..n |-> Cell(q, k, n) ]
              image == [ k \in 1..n |-> Cell(MirrorQuad(2, q), k, n) ]
          IN IF sym = 0 THEN half ELSE half \o image

Point(al, be, r) == [airspeed |-> "30.0", density |-> "1.2", alpha |-> al, beta |-> be,
                     rate_P |-> r[1], rate_Q |-> r[2], rate_R |-> r[3]]

Init == /\ shape \in Shapes /\ n \in Ns /\ sym \in {0, 2}
        /\ \E al \in Alphas, be \in Betas, r \in RateSets : pt = Point(al, be, r)
        /\ phase = "given" /\ sol = <<>>
Analyze == /\ phase = "given" /\ phase' = "solved"
           /\ sol' = Analyse(Panels, pt, Refs, Eps)
           /\ UNCHANGED <<shape, n, sym, pt>>
Next == Analyze
Spec == Init /\ [][Next]_vars

Solved == phase = "solved"
Rel(x, y, scale) == FNear(x, y, FMul("1e-6", scale))
Scale(g) == FMaxAbs(g)
SameGamma(g, h) == \A i \in DOMAIN g : Rel(g[i], h[i], FAdd("1e-9", FAdd(Scale(g), Scale(h))))
CoeffScale(c) == FAdd("1e-9", FMaxAbs([ i \in 1..3 |-> c[<<"x", "y", "z">>[i]] ]))
SameCoeffs(c, d) == \A k \in DOMAIN c : Rel(c[k], d[k], FAdd(CoeffScale(c), CoeffScale(d)))

\* --- Biot-Savart: the textbook form of the filament's field (no regularisation)
Textbook(p, a, b) ==
    LET r1 == VSub(p, a)  r2 == VSub(p, b)  r0 == VSub(b, a)  x == VCross(r1, r2)
    IN VScale(FDiv(FDot(r0, VSub(VUnit(r1), VUnit(r2))), FMul(FourPi, FDot(x, x))), x)
BiotSavart == Solved =>
    \A i \in DOMAIN sol.cs : \A j \in DOMAIN sol.vs :
        LET a == sol.vs[j][2]  b == sol.vs[j][3]
            t == Textbook(sol.cs[i], a, b)
        IN VNear(Filament(sol.cs[i], a, b, "0.0"), t, FMul("1e-9", FAdd("1e-6", VNorm(t))))
\* the velocity around the bound vortex follows its direction (right hand)
RightHanded == Solved =>
    \A j \in DOMAIN sol.vs :
        LET a == sol.vs[j][2]  b == sol.vs[j][3]
            p == VAdd(VMid(a, b), <<"0.0", "0.0", "0.1">>)
        IN FLt("0.0", Filament(p, a, b, Eps)[1])

\* --- flow tangency, written with velocities
Tangency == Solved =>
    \A i \in DOMAIN sol.cs :
        LET v == VAdd(Induced(sol.cs[i], sol.vs, sol.gamma, Eps), Onset(pt, Refs.gcenter, sol.cs[i]))
        IN FNear(FDot(v, sol.ns[i]), "0.0", "1e-8")

\* --- wind axes form a right-handed orthonormal system and keep the force's length
WindAxes == Solved =>
    LET t == sol.totals
    IN /\ Rel(FAdd(FSq(t.D), FAdd(FSq(t.C), FSq(t.L))), FAdd(FSq(t.x), FAdd(FSq(t.y), FSq(t.z))), FAdd("1e-6", FSq(t.z)))
       /\ FNear(FDot(LiftDir(pt), DragDir(pt)), "0.0", "1e-12")
       /\ FNear(VNorm(SideDir(pt)), "1.0", "1e-12")

\* --- similarity
Faster(p, k) == [p EXCEPT !.airspeed = FMul(k, @), !.rate_P = FMul(k, @), !.rate_Q = FMul(k, @), !.rate_R = FMul(k, @)]
Shift(p) == VAdd(p, <<"3.0", "-1.0", "2.0">>)
Moved == [ i \in DOMAIN Panels |-> [ j \in 1..4 |-> Shift(Panels[i][j]) ] ]
MovedRefs == [Refs EXCEPT !.gcenter = Shift(@), !.rcenter = Shift(@)]
DensityLaw == Solved => LET s == Analyse(Panels, [pt EXCEPT !.density = "0.4"], Refs, Eps)
                        IN SameGamma(s.gamma, sol.gamma) /\ SameCoeffs(s.coeffs, sol.coeffs)
SpeedLaw == Solved => LET s == Analyse(Panels, Faster(pt, "2.5"), Refs, Eps)
                      IN /\ SameGamma([ i \in DOMAIN s.gamma |-> FDiv(s.gamma[i], "2.5") ], sol.gamma)
                         /\ SameCoeffs(s.coeffs, sol.coeffs)
ShiftLaw == Solved => LET s == Analyse(Moved, pt, MovedRefs, Eps)
                      IN SameGamma(s.gamma, sol.gamma) /\ SameCoeffs(s.coeffs, sol.coeffs)
SizeLaw == Solved =>
    LET k == "3.0"
        big == [ i \in DOMAIN Panels |-> [ j \in 1..4 |-> VScale(k, Panels[i][j]) ] ]
        refs == [area |-> FMul(FSq(k), Refs.area), chord |-> FMul(k, Refs.chord), span |-> FMul(k, Refs.span),
                 gcenter |-> VScale(k, Refs.gcenter), rcenter |-> VScale(k, Refs.rcenter)]
        slow == [pt EXCEPT !.rate_P = FDiv(@, k), !.rate_Q = FDiv(@, k), !.rate_R = FDiv(@, k)]
        s == Analyse(big, slow, refs, Eps)
    IN \* the trailing legs are not scaled: they only stand for infinitely long ones
       \A c \in DOMAIN s.coeffs : FNear(s.coeffs[c], sol.coeffs[c], FAdd("1e-6", FMul("1e-4", CoeffScale(sol.coeffs))))
\* circulation is additive: free stream and each rotation on their own
Superposition == Solved =>
    LET only(r) == [pt EXCEPT !.rate_P = r[1], !.rate_Q = r[2], !.rate_R = r[3]]
        part(r) == Analyse(Panels, only(r), Refs, Eps).gamma
        g0 == part(VZero)
        gp == part(<<pt.rate_P, "0.0", "0.0">>)
        gq == part(<<"0.0", pt.rate_Q, "0.0">>)
        gr == part(<<"0.0", "0.0", pt.rate_R>>)
    IN SameGamma([ i \in DOMAIN g0 |-> FSub(FAdd(gp[i], FAdd(gq[i], gr[i])), FMul("2.0", g0[i])) ], sol.gamma)

\* --- symmetry
Mirrored(p) == [p EXCEPT !.beta = FNeg(@), !.rate_P = FNeg(@), !.rate_R = FNeg(@)]
SymmetricFlow == FEq(pt.beta, "0.0") /\ FEq(pt.rate_P, "0.0") /\ FEq(pt.rate_R, "0.0")
SymmetryLaw == (Solved /\ sym = 2) =>
    LET s == Analyse(Panels, Mirrored(pt), Refs, Eps)
        image(i) == IF i <= n THEN i + n ELSE i - n
        flip(c) == [ k \in DOMAIN c |-> IF k \in {"y", "C", "l", "n"} THEN FNeg(c[k]) ELSE c[k] ]
    IN /\ SameGamma(sol.gamma, [ i \in DOMAIN sol.gamma |-> s.gamma[image(i)] ])
       /\ SameCoeffs(sol.coeffs, flip(s.coeffs))
NoSideForceInSymmetricFlow == (Solved /\ sym = 2 /\ SymmetricFlow) =>
    \A k \in {"y", "C", "l", "n"} : FNear(sol.coeffs[k], "0.0", "1e-9")

\* --- a flat wing at zero incidence carries nothing
NoIncidenceNoLoad == (Solved /\ shape.a = VZero /\ FEq(pt.alpha, "0.0") /\ VNear(Omega(pt), VZero, "0.0")) =>
    FMaxAbs(sol.gamma) = "0.0" \/ FNear(FMaxAbs(sol.gamma), "0.0", "1e-12")
=============================================================================
