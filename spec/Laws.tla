-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* How the results of several analyses are related.  An analysis r is      *)
(* [ac, pt, gamma, forces, coeffs, pairs]: the aircraft (normal form), the *)
(* flight point and what was computed; pairs are the panel numbers of the  *)
(* panels of symmetric wings and of their images.  A law has a premise     *)
(* about the inputs of the analyses (what was changed, and that nothing    *)
(* else was) and a conclusion about their results.                         *)
(***************************************************************************)
EXTENDS Vlm

Rel(x, y, tol, scale) == FNear(x, y, FMul(tol, FAdd("1e-3", scale)))
Close(x, y) == FNear(x, y, FMul("1e-9", FAdd("1.0", FAbs(x))))
VClose(u, v) == \A i \in 1..3 : Close(u[i], v[i])

(* ------------------------------- inputs -------------------------------- *)
MapPoints(ac, f(_)) ==
    [ac EXCEPT !.refs = [@ EXCEPT !.gcenter = f(@), !.rcenter = f(@)],
               !.wings = [ i \in DOMAIN ac.wings |->
                   [ac.wings[i] EXCEPT !.segs = [ j \in DOMAIN ac.wings[i].segs |->
                       [ac.wings[i].segs[j] EXCEPT !.a = f(@), !.b = f(@), !.c = f(@), !.d = f(@)] ]] ]]
SameRefs(r, q) == /\ Close(r.area, q.area) /\ Close(r.chord, q.chord) /\ Close(r.span, q.span)
                  /\ VClose(r.gcenter, q.gcenter) /\ VClose(r.rcenter, q.rcenter)
SameSeg(s, t) == /\ \A k \in {"a", "b", "c", "d"} : VClose(s[k], t[k])
                 /\ \A k \in {"num_c", "num_s", "fi", "fo"} : s[k] = t[k]
SameWing(w, v) == /\ w.sym = v.sym /\ w.ctls = v.ctls /\ Len(w.segs) = Len(v.segs)
                  /\ \A j \in DOMAIN w.segs : SameSeg(w.segs[j], v.segs[j])
SameAircraft(x, y) == /\ SameRefs(x.refs, y.refs) /\ Len(x.wings) = Len(y.wings)
                      /\ \A i \in DOMAIN x.wings : SameWing(x.wings[i], y.wings[i])
SamePoint(p, q) == \A k \in DOMAIN p : Close(p[k], q[k])
Rated(p, w) == [p EXCEPT !.rate_P = w[1], !.rate_Q = w[2], !.rate_R = w[3]]

(* ------------------------------ comparisons ---------------------------- *)
SameGamma(g, h, k, tol) ==
    /\ Len(g) = Len(h)
    /\ LET s == FMaxAbs(g) IN \A i \in DOMAIN g : Rel(FMul(k, g[i]), h[i], tol, FMul(FAbs(k), s))
ForceKeys == {"x", "y", "z", "D", "C", "L"}
\* largest dimension that moments are taken over
Arm(ac) == FMaxAbs([ i \in 1..Len(ac.wings) |->
    FMaxAbs([ j \in 1..Len(ac.wings[i].segs) |-> VNorm(VSub(ac.wings[i].segs[j].c, ac.refs.rcenter)) ]) ])
\* k[key] * a[key] is b[key]; a force is as accurate as the largest force,
\* a moment as the largest moment or force times arm (lengths: what moments
\* are divided by, 1 for moments themselves)
SameTotals(a, b, k, tol, arm) ==
    LET fs == FMaxAbs(<<a.x, a.y, a.z>>)
        ms == FAdd(FMaxAbs(<<a.l, a.m, a.n>>), FMul(arm, fs))
    IN \A key \in DOMAIN a : /\ key \in DOMAIN b
                             /\ Rel(FMul(k[key], a[key]), b[key], tol, FMul(FAbs(k[key]), IF key \in ForceKeys THEN fs ELSE ms))
Factors(kf, km) == [ key \in ForceKeys \cup {"l", "m", "n"} |-> IF key \in ForceKeys THEN kf ELSE km ]
Unchanged == Factors("1.0", "1.0")
\* arm for coefficients: the smallest length moments are divided by
CArm(ac) == FDiv(Arm(ac), FMin(ac.refs.span, ac.refs.chord))
SameForces(r, q, k, tol) == SameTotals(r.forces, q.forces, k, tol, Arm(r.ac))
SameCoeffs(r, q, k, tol) == SameTotals(r.coeffs, q.coeffs, k, tol, CArm(r.ac))

(* --------------------------------- laws -------------------------------- *)
Tol == "1e-7"
\* when points are moved, rounding next to the bound vortices is magnified
MovedTol == "1e-5"

\* 1. density
DensityPremise(r, q, k) == /\ SameAircraft(r.ac, q.ac)
                           /\ SamePoint([r.pt EXCEPT !.density = FMul(k, @)], q.pt)
DensityLaw(r, q, k) == /\ SameGamma(r.gamma, q.gamma, "1.0", Tol)
                       /\ SameForces(r, q, Factors(k, k), Tol) /\ SameCoeffs(r, q, Unchanged, Tol)
\* 2. airspeed together with the rates
Faster(p, k) == Rated([p EXCEPT !.airspeed = FMul(k, @)], VScale(k, Omega(p)))
SpeedPremise(r, q, k) == SameAircraft(r.ac, q.ac) /\ SamePoint(Faster(r.pt, k), q.pt)
SpeedLaw(r, q, k) == /\ SameGamma(r.gamma, q.gamma, k, Tol)
                     /\ SameForces(r, q, Factors(FSq(k), FSq(k)), Tol) /\ SameCoeffs(r, q, Unchanged, Tol)
\* 3. place (only along the planes of symmetry of the wings)
ShiftPremise(r, q, d) ==
    /\ LET f(p) == VAdd(p, d) IN SameAircraft(MapPoints(r.ac, f), q.ac)
    /\ SamePoint(r.pt, q.pt)
    /\ \A i \in DOMAIN r.ac.wings :
           LET y == r.ac.wings[i].sym IN y = 0 \/ FEq(d[CASE y = 1 -> 3 [] y = 2 -> 2 [] y = 3 -> 1], "0.0")
ShiftLaw(r, q) == /\ SameGamma(r.gamma, q.gamma, "1.0", Tol)
                  /\ SameForces(r, q, Unchanged, MovedTol) /\ SameCoeffs(r, q, Unchanged, MovedTol)
SizeTol == "5e-3"
\* 4. size; the legs that stand for infinitely long ones have a fixed length
SizePremise(r, q, k) ==
    /\ LET f(p) == VScale(k, p)
           big == MapPoints(r.ac, f)
       IN SameAircraft([big EXCEPT !.refs = [@ EXCEPT !.area = FMul(FSq(k), @), !.chord = FMul(k, @), !.span = FMul(k, @)]], q.ac)
    /\ SamePoint(Rated(r.pt, VScale(FDiv("1.0", k), Omega(r.pt))), q.pt)
\* almost singular lattices (a leg through a collocation point) multiply the difference the legs make
Singular(r) == \E x \in {"x", "y", "z"} : FLt("300.0", FAbs(r.coeffs[x]))
SizeLaw(r, q, k) ==
    \/ Singular(r) /\ Singular(q)
    \/ /\ SameGamma(r.gamma, q.gamma, k, SizeTol)
       /\ SameForces(r, q, Factors(FSq(k), FMul(k, FSq(k))), SizeTol) /\ SameCoeffs(r, q, Unchanged, SizeTol)
\* 5. order of the wings
OrderPremise(r, q, perm) ==
    /\ SameRefs(r.ac.refs, q.ac.refs) /\ SamePoint(r.pt, q.pt)
    /\ Len(perm) = Len(r.ac.wings) /\ Len(q.ac.wings) = Len(perm)
    /\ { perm[i] : i \in DOMAIN perm } = DOMAIN r.ac.wings
    /\ \A i \in DOMAIN perm : SameWing(r.ac.wings[perm[i]], q.ac.wings[i])
OrderLaw(r, q) == /\ Len(r.gamma) = Len(q.gamma)
                  /\ Rel(FMaxAbs(r.gamma), FMaxAbs(q.gamma), Tol, FMaxAbs(r.gamma))
                  /\ SameForces(r, q, Unchanged, Tol) /\ SameCoeffs(r, q, Unchanged, Tol)
\* 6. additivity: (V, w1) and (V, w2) make (2V, w1 + w2)
AddPremise(r, q, s) ==
    /\ SameAircraft(r.ac, q.ac) /\ SameAircraft(r.ac, s.ac)
    /\ SamePoint(Rated(r.pt, Omega(q.pt)), q.pt)
    /\ SamePoint(Rated([r.pt EXCEPT !.airspeed = FMul("2.0", @)], VAdd(Omega(r.pt), Omega(q.pt))), s.pt)
AddLaw(r, q, s) ==
    /\ Len(r.gamma) = Len(q.gamma) /\ Len(r.gamma) = Len(s.gamma)
    /\ LET m == FAdd(FMaxAbs(r.gamma), FMaxAbs(q.gamma))
       IN \A i \in DOMAIN r.gamma : Rel(FAdd(r.gamma[i], q.gamma[i]), s.gamma[i], Tol, m)
\* 7. nothing to turn the flow: every chord along it, no camber, no deflection
ZeroPremise(r) ==
    /\ FEq(r.pt.alpha, "0.0") /\ FEq(r.pt.beta, "0.0") /\ VNear(Omega(r.pt), VZero, "0.0")
    /\ \A i \in DOMAIN r.ac.wings :
        LET w == r.ac.wings[i]
        IN /\ \A j \in DOMAIN w.segs :
                LET s == w.segs[j]
                IN /\ FEq(s.a[2], s.d[2]) /\ FEq(s.a[3], s.d[3]) /\ FEq(s.b[2], s.c[2]) /\ FEq(s.b[3], s.c[3])
                   /\ s.fi \in {"NACA0012", "NACA0009", "NACA0000"} /\ s.fo \in {"NACA0012", "NACA0009", "NACA0000"}
           /\ \A j \in DOMAIN w.ctls : FEq(w.ctls[j].defl, "0.0") /\ w.ctls[j].deflm \in {"", "0.0"}
ZeroLaw(r) ==
    LET q == DynPressure(r.pt)
    IN /\ FLe(FMaxAbs(r.gamma), FMul("1e-9", r.pt.airspeed))
       /\ \A key \in ForceKeys : FLe(FAbs(r.coeffs[key]), FDiv("1e-8", r.ac.refs.area))
       /\ \A key \in {"l", "m", "n"} : FLe(FAbs(r.forces[key]), FMul("1e-8", FMul(q, FAdd("1.0", Arm(r.ac)))))
\* 8. attitude: aircraft, flow and rotation turned together about the y axis
YAxis == <<"0.0", "1.0", "0.0">>
TurnPremise(r, q, deg) ==
    /\ LET f(p) == VRotate(p, YAxis, FDeg2Rad(deg)) IN SameAircraft(MapPoints(r.ac, f), q.ac)
    /\ SamePoint(Rated([r.pt EXCEPT !.alpha = FSub(@, deg)], VRotate(Omega(r.pt), YAxis, FDeg2Rad(deg))), q.pt)
    /\ \A i \in DOMAIN r.ac.wings : r.ac.wings[i].sym \in {0, 2}
TurnLaw(r, q, deg) ==
    LET turn(v) == VRotate(v, YAxis, FDeg2Rad(deg))
        f(t) == <<t.x, t.y, t.z>>
        m(t) == <<t.l, t.m, t.n>>
        fs == VNorm(f(r.forces))  ms == FAdd(VNorm(m(r.forces)), FMul(Arm(r.ac), fs))
    IN /\ SameGamma(r.gamma, q.gamma, "1.0", Tol)
       /\ VNear(turn(f(r.forces)), f(q.forces), FMul(MovedTol, FAdd("1e-3", fs)))
       /\ VNear(turn(m(r.forces)), m(q.forces), FMul(MovedTol, FAdd("1e-3", ms)))
       /\ \A key \in {"D", "C", "L"} : Rel(r.coeffs[key], q.coeffs[key], MovedTol, FMaxAbs(<<r.coeffs.x, r.coeffs.y, r.coeffs.z>>))

(* ------------------------------- symmetry ------------------------------ *)
OnPlane(p) == FEq(p[2], "0.0")
\* every wing has its image, or lies in the plane of symmetry itself
Symmetric(ac) ==
    /\ OnPlane(ac.refs.gcenter) /\ OnPlane(ac.refs.rcenter)
    /\ \A i \in DOMAIN ac.wings :
        LET w == ac.wings[i]
        IN w.sym = 2 \/ /\ w.sym = 0 /\ w.ctls = <<>>
                        /\ \A j \in DOMAIN w.segs : /\ \A k \in {"a", "b", "c", "d"} : OnPlane(w.segs[j][k])
                                                    /\ w.segs[j].fi = "NACA0012" /\ w.segs[j].fo = "NACA0012"
Both(c) == IF c.deflm = "" THEN c.defl ELSE c.deflm
SwapDeflections(ac) ==
    [ac EXCEPT !.wings = [ i \in DOMAIN ac.wings |->
        [ac.wings[i] EXCEPT !.ctls = [ j \in DOMAIN ac.wings[i].ctls |->
            [ac.wings[i].ctls[j] EXCEPT !.defl = Both(ac.wings[i].ctls[j]), !.deflm = ac.wings[i].ctls[j].defl] ]] ]]
MirroredPoint(p) == [p EXCEPT !.beta = FNeg(@), !.rate_P = FNeg(@), !.rate_R = FNeg(@)]
Antisymmetric == {"y", "C", "l", "n"}
Flip == [ key \in DOMAIN Unchanged |-> IF key \in Antisymmetric THEN "-1.0" ELSE "1.0" ]
Imaged(r) == { r.pairs[i][1] : i \in DOMAIN r.pairs } \cup { r.pairs[i][2] : i \in DOMAIN r.pairs }

MirrorPremise(r, q) ==
    LET x == SwapDeflections(r.ac)
    IN /\ Symmetric(r.ac) /\ SameRefs(r.ac.refs, q.ac.refs)
       /\ \A i \in DOMAIN x.wings : /\ SameWing([x.wings[i] EXCEPT !.ctls = <<>>], [q.ac.wings[i] EXCEPT !.ctls = <<>>])
                                    /\ \A j \in DOMAIN x.wings[i].ctls : x.wings[i].ctls[j] = q.ac.wings[i].ctls[j]
       /\ SamePoint(MirroredPoint(r.pt), q.pt)
MirrorLaw(r, q) ==
    LET s == FMaxAbs(r.gamma)
    IN /\ Len(r.gamma) = Len(q.gamma) /\ r.pairs = q.pairs
       /\ \A i \in DOMAIN r.pairs : /\ Rel(r.gamma[r.pairs[i][1]], q.gamma[r.pairs[i][2]], Tol, s)
                                    /\ Rel(r.gamma[r.pairs[i][2]], q.gamma[r.pairs[i][1]], Tol, s)
       /\ \A i \in DOMAIN r.gamma \ Imaged(r) : Rel(r.gamma[i], FNeg(q.gamma[i]), Tol, s)
       /\ SameForces(r, q, Flip, Tol) /\ SameCoeffs(r, q, Flip, Tol)

SymmetricPremise(r) ==
    /\ Symmetric(r.ac)
    /\ FEq(r.pt.beta, "0.0") /\ FEq(r.pt.rate_P, "0.0") /\ FEq(r.pt.rate_R, "0.0")
    /\ \A i \in DOMAIN r.ac.wings : \A j \in DOMAIN r.ac.wings[i].ctls : FEq(Both(r.ac.wings[i].ctls[j]), r.ac.wings[i].ctls[j].defl)
SymmetricLaw(r) ==
    LET s == FMaxAbs(r.gamma)  c == r.coeffs
        fs == FMaxAbs(<<c.x, c.y, c.z>>)  ms == FAdd(FMaxAbs(<<c.l, c.m, c.n>>), FMul(CArm(r.ac), fs))
    IN /\ \A i \in DOMAIN r.pairs : Rel(r.gamma[r.pairs[i][1]], r.gamma[r.pairs[i][2]], Tol, s)
       /\ \A i \in DOMAIN r.gamma \ Imaged(r) : Rel(r.gamma[i], "0.0", Tol, s)
       /\ \A key \in {"y", "C"} : Rel(c[key], "0.0", Tol, fs)
       /\ \A key \in {"l", "n"} : Rel(c[key], "0.0", Tol, ms)

\* a wing symmetric about the xz plane, declared as two wings without symmetry
Opposite(sg) == LET m == MirrorQuad(2, sg)
                IN [sg EXCEPT !.a = m.a, !.b = m.b, !.c = m.c, !.d = m.d, !.fi = sg.fo, !.fo = sg.fi]
OppositeCtl(c, n) == [c EXCEPT !.defl = Both(c), !.deflm = "", !.si = n + 1 - c.so, !.so = n + 1 - c.si,
                               !.ea = FSub("1.0", c.eb), !.eb = FSub("1.0", c.ea),
                               !.x1 = c.x2, !.x2 = c.x1, !.h1 = c.h2, !.h2 = c.h1]
SameCtl(c, d) == /\ \A k \in {"type", "si", "so", "num_c"} : c[k] = d[k]
                 /\ \A k \in {"defl", "ea", "eb", "x1", "x2", "h1", "h2"} : Close(c[k], d[k])
ImageOf(w) == LET n == Len(w.segs)
              IN [w EXCEPT !.sym = 0, !.segs = [ j \in DOMAIN w.segs |-> Opposite(w.segs[n + 1 - j]) ],
                           !.ctls = [ j \in DOMAIN w.ctls |-> OppositeCtl(w.ctls[j], n) ]]
SameButControls(w, v) == SameWing([w EXCEPT !.ctls = <<>>], [v EXCEPT !.ctls = <<>>])
TwoWingsPremise(r, q) ==
    LET n == Len(r.ac.wings)
    IN /\ SameRefs(r.ac.refs, q.ac.refs) /\ SamePoint(r.pt, q.pt) /\ Len(q.ac.wings) = 2*n
       /\ \A i \in 1..n :
            LET w == r.ac.wings[i]  here == q.ac.wings[2*i - 1]  there == q.ac.wings[2*i]  image == ImageOf(w)
            IN /\ w.sym = 2
               /\ SameButControls([w EXCEPT !.sym = 0], here) /\ SameButControls(image, there)
               /\ Len(here.ctls) = Len(w.ctls) /\ Len(there.ctls) = Len(w.ctls)
               /\ \A j \in DOMAIN w.ctls : SameCtl(w.ctls[j], here.ctls[j]) /\ SameCtl(image.ctls[j], there.ctls[j])
\* the slopes of the airfoil library, which differentiates numerically, differ a little
SlopeTol == "1e-3"
TwoWingsLaw(r, q) == /\ Len(r.gamma) = Len(q.gamma)
                     /\ Rel(FMaxAbs(r.gamma), FMaxAbs(q.gamma), SlopeTol, FMaxAbs(r.gamma))
                     /\ SameForces(r, q, Unchanged, SlopeTol) /\ SameCoeffs(r, q, Unchanged, SlopeTol)
=============================================================================
