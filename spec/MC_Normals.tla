------------------------------ MODULE MC_Normals ------------------------------
(***************************************************************************)
(* Properties of the turned normals over a grid of patches, deflections,   *)
(* camber slopes and symmetries.                                           *)
(***************************************************************************)
EXTENDS Normals, Moved

CONSTANTS Defls, Slopes

Hinges == {<<"0.7", "0.7">>, <<"0.75", "0.9">>, <<"0.2", "1.0">>}

VARIABLES s, defl, slope, h, sym, phase, n
vars == <<s, defl, slope, h, sym, phase, n>>

Segs == { [a |-> <<"1.0", "1.0", "2.0">>, b |-> <<o, "3.0", z1>>,
           c |-> <<FAdd(o, "1.5"), "3.0", z2>>, d |-> <<"3.0", "1.0", z3>>]
          : o \in {"1.0", "2.5"}, z1 \in {"2.0", "2.4"}, z2 \in {"2.0", "1.9"}, z3 \in {"2.0", "2.2"} }

Quad0 == PatchQuad(s, "0.25", "0.75", <<"0.7", "0.7", "1.0", "1.0">>)
Quad(m) == IF m THEN MirrorQuad(sym, Quad0) ELSE Quad0
Axis(m) == HingeAxis(sym, m, s, "0.25", "0.75", h[1], h[2])
Geo(m) == PanelNormal(Cell(Quad(m), 1, 1))

Init == /\ s \in Segs /\ defl \in Defls /\ slope \in Slopes /\ h \in Hinges /\ sym \in 0..3
        /\ phase = "geometric"
        /\ n = [m \in (IF sym = 0 THEN {FALSE} ELSE {FALSE, TRUE}) |-> Geo(m)]
Deflect == /\ phase = "geometric" /\ phase' = "deflected"
           /\ n' = [m \in DOMAIN n |-> TurnDeg(n[m], Axis(m), defl)]
           /\ UNCHANGED <<s, defl, slope, h, sym>>
Bend == /\ phase = "deflected" /\ phase' = "cambered"
        /\ n' = [m \in DOMAIN n |-> TurnSlope(n[m], CamberAxis(Quad(m), sym, m), slope)]
        /\ UNCHANGED <<s, defl, slope, h, sym>>
Next == Deflect \/ Bend
Spec == Init /\ [][Next]_vars

Unit == \A m \in DOMAIN n : FNear(VNorm(n[m]), "1.0", "1e-12")
\* a normal at a right angle to the hinge line turns by exactly the deflection
TurnedByDeflection == (phase = "deflected") =>
    \A m \in DOMAIN n :
        LET along == FDot(VUnit(Axis(m)), Geo(m))
            c == FAdd(FMul(FSub("1.0", FSq(along)), FCos(FDeg2Rad(defl))), FSq(along))
        IN FNear(FDot(n[m], Geo(m)), c, "1e-12")
AlongHingeUnchanged == (phase = "deflected") =>
    \A m \in DOMAIN n : FNear(FDot(n[m], VUnit(Axis(m))), FDot(Geo(m), VUnit(Axis(m))), "1e-12")
\* trailing edge down: the normal (downwards on a flat wing) turns towards the front
TrailingEdgeDown == (phase = "deflected" /\ FLt("0.0", defl) /\ sym \in {0, 2}) =>
    \A m \in DOMAIN n : FLt(n[m][1], Geo(m)[1])
NoTurnWithoutCause == (FEq(defl, "0.0") /\ FEq(slope, "0.0")) => \A m \in DOMAIN n : VNear(n[m], Geo(m), "1e-12")
\* a strip that is deformed by nothing, or shifted as a whole, has the patches and hinge lines of the original
Still == << <<"0.0", "1.0", "2.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">> >>
Shifted == << <<"0.0", "1.0", "2.0", "0.3", "-0.2", "1.0", "0.0", "0.0", "0.0">> >>
MovedAsOriginal == (phase = "geometric") =>
    \A m \in DOMAIN n : \A f \in {<<>>, Still, Shifted} :
        LET strip == MovedStrip(s, "0.25", "0.75", sym, m, f)
            by == IF f = Shifted THEN <<"0.3", "-0.2", "1.0">> ELSE VZero
            q == PatchOn(strip, <<"0.7", "0.7", "1.0", "1.0">>, sym, m)
        IN /\ \A k \in {"a", "b", "c", "d"} : VNear(q[k], VAdd(Quad(m)[k], by), "1e-12")
           /\ VNear(HingeOn(strip, h[1], h[2], sym, m), Axis(m), "1e-12")
\* a strip turned by a small angle about its inner end turns its hinge line by as much
Turned == << <<"1.0", "1.0", "2.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.01">> >>
TurnsHinge == (phase = "geometric" /\ ~(sym \in {1, 3})) =>
    LET a == Axis(FALSE)
        b == HingeOn(MovedStrip(s, "0.25", "0.75", sym, FALSE, Turned), h[1], h[2], sym, FALSE)
    IN VNear(b, VRotate(a, <<"0.0", "0.0", "1.0">>, "0.01"), "1e-12")
\* same deflection on both sides: the image's normals are the mirrored ones
ImageMirrors == (sym = 2) => VNear(n[TRUE], MirrorPoint(2, n[FALSE]), "1e-12")
=============================================================================
