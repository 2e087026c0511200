--------------------------------- MODULE Vlm ---------------------------------
(***************************************************************************)
(* The vortex-lattice equations.  A horseshoe vortex v is the sequence of  *)
(* its four points <<V1, V2, V3, V4>>: trailing leg, bound leg, trailing   *)
(* leg.  A flight point pt is [airspeed, density, alpha, beta, rate_P,     *)
(* rate_Q, rate_R] (angles in degrees).                                    *)
(***************************************************************************)
EXTENDS Lattice

FourPi == FMul("4.0", FPi)

\* velocity induced at p by the straight vortex filament from a to b of unit
\* strength (Biot-Savart), regularised by eps on the filament's own line
Filament(p, a, b, eps) ==
    LET r1 == VSub(p, a)  r2 == VSub(p, b)
        m1 == VNorm(r1)   m2 == VNorm(r2)
        den == FAdd(FDot(r1, r2), FMul(FMul(m1, m2), FAdd("1.0", eps)))
        k == FDiv(FAdd(FDiv("1.0", m1), FDiv("1.0", m2)), FMul(FourPi, den))
    IN VScale(k, VCross(r1, r2))

Horseshoe(p, v, eps) ==
    VAdd(Filament(p, v[1], v[2], eps), VAdd(Filament(p, v[2], v[3], eps), Filament(p, v[3], v[4], eps)))

FreeStream(pt) == VScale(pt.airspeed, WindDir(pt))
Omega(pt) == << pt.rate_P, pt.rate_Q, pt.rate_R >>
\* velocity of a point of the rotating aircraft
RotVelocity(pt, cg, p) == VCross(Omega(pt), VSub(p, cg))
\* velocity of the air relative to the aircraft, without that induced by vortices
Onset(pt, cg, p) == VSub(FreeStream(pt), RotVelocity(pt, cg, p))

\* row of the system matrix for the point c with normal n
MatrixRow(c, n, vs, eps) == [ j \in DOMAIN vs |-> FDot(Horseshoe(c, vs[j], eps), n) ]
RightSide(pt, cg, c, n) == FNeg(FDot(Onset(pt, cg, c), n))

Induced(p, vs, gamma, eps) ==
    LET part == [ j \in DOMAIN vs |-> VScale(gamma[j], Horseshoe(p, vs[j], eps)) ]
    IN << FSum([ j \in DOMAIN vs |-> part[j][1] ]), FSum([ j \in DOMAIN vs |-> part[j][2] ]),
          FSum([ j \in DOMAIN vs |-> part[j][3] ]) >>

(* -------------------------------- loads -------------------------------- *)
\* Kutta-Joukowski
PanelForce(pt, cg, v, mid, gamma, vind) ==
    VScale(FMul(pt.density, gamma), VCross(VAdd(vind, Onset(pt, cg, mid)), VSub(v[3], v[2])))
PanelMoment(rp, mid, f) == VCross(VSub(mid, rp), f)
VSum(s) == << FSum([ i \in DOMAIN s |-> s[i][1] ]), FSum([ i \in DOMAIN s |-> s[i][2] ]), FSum([ i \in DOMAIN s |-> s[i][3] ]) >>

\* unit vectors of the wind axes: drag along the free stream, lift at a right
\* angle to it in the plane of symmetry, side force to complete them
DragDir(pt) == WindDir(pt)
LiftDir(pt) == LET a == FDeg2Rad(pt.alpha) IN << FNeg(FSin(a)), "0.0", FCos(a) >>
SideDir(pt) == VCross(LiftDir(pt), DragDir(pt))

DynPressure(pt) == FMul("0.5", FMul(pt.density, FSq(pt.airspeed)))

\* totals and coefficients: [x, y, z, D, C, L, l, m, n]
Totals(pt, f, m) ==
    [x |-> f[1], y |-> f[2], z |-> f[3],
     D |-> FDot(f, DragDir(pt)), C |-> FDot(f, SideDir(pt)), L |-> FDot(f, LiftDir(pt)),
     l |-> m[1], m |-> m[2], n |-> m[3]]
Lengths(refs) == [x |-> "1.0", y |-> "1.0", z |-> "1.0", D |-> "1.0", C |-> "1.0", L |-> "1.0",
                  l |-> refs.span, m |-> refs.chord, n |-> refs.span]
Coefficients(pt, refs, tot) ==
    [ k \in DOMAIN tot |-> FDiv(tot[k], FMul(FMul(DynPressure(pt), refs.area), Lengths(refs)[k])) ]
=============================================================================
