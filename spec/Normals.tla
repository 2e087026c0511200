------------------------------- MODULE Normals -------------------------------
(***************************************************************************)
(* What deflections and camber do to the panel normals.                    *)
(***************************************************************************)
EXTENDS Lattice

\* hinge of a patch on strip [ea, eb] of segment s: from the inner to the
\* outer hinge point, on the image from the image's own inner end
HingeAxis(sym, mirror, s, ea, eb, h1, h2) ==
    LET p1 == SegPoint(s, ea, h1)
        p2 == SegPoint(s, eb, h2)
    IN IF ~mirror THEN VSub(p2, p1)
       ELSE IF sym = 2 THEN VSub(MirrorPoint(sym, p1), MirrorPoint(sym, p2))
       ELSE VSub(MirrorPoint(sym, p2), MirrorPoint(sym, p1))

\* the deflection that holds for a side of control c
Deflection(c, mirror) == IF mirror /\ c.deflm # "" THEN c.deflm ELSE c.defl

\* the axis across the patch about which its camber turns normals; it is drawn
\* from the inner edge, which is the edge bc of an image in the xz plane
CamberAxis(q, sym, mirror) ==
    LET ad == IF mirror /\ sym = 2 THEN VSub(q.c, q.b) ELSE VSub(q.d, q.a)
    IN VCross(VCross(VSub(q.b, q.a), ad), ad)

\* chordwise position of the collocation point of panel k of n
CollocationXsi(xsi, k, n) ==
    LET le == FMul("0.5", FAdd(xsi[1], xsi[2]))
        te == FMul("0.5", FAdd(xsi[3], xsi[4]))
    IN FAdd(le, FMul(FDiv(FSub(ToString(k), "0.25"), ToString(n)), FSub(te, le)))

\* slope of the camber line half way across the strip: foils change linearly
StripSlope(slope_i, slope_o, ea, eb) ==
    LET m == FMul("0.5", FAdd(ea, eb)) IN FAdd(slope_i, FMul(m, FSub(slope_o, slope_i)))

\* a parabolic camber line y = 4 k x (1 - x)
ParabolaSlope(k, x) == FMul(FMul("4.0", k), FSub("1.0", FMul("2.0", x)))

TurnDeg(v, axis, deg) == IF FEq(deg, "0.0") THEN v ELSE VRotate(v, axis, FDeg2Rad(deg))
TurnSlope(v, axis, slope) == IF FEq(slope, "0.0") THEN v ELSE VRotate(v, axis, FAtan2(slope, "1.0"))
=============================================================================
