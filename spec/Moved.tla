-------------------------------- MODULE Moved --------------------------------
(***************************************************************************)
(* Strips, patches and hinge lines of wings that may be mirrored and       *)
(* deformed.  A strip moves by its corners; patches and hinge lines lie on *)
(* the moved strip.  Corners are named as on the original: the image of    *)
(* the inner edge is ad.                                                   *)
(***************************************************************************)
EXTENDS Lattice, Deformation

MovedStrip(g, ea, eb, sym, mirror, field) ==
    LET at(eta, xsi) == LET p == SegPoint(g, eta, xsi) IN Deformed(field, IF mirror THEN MirrorPoint(sym, p) ELSE p)
    IN [ a |-> at(ea, "0.0"), b |-> at(eb, "0.0"), c |-> at(eb, "1.0"), d |-> at(ea, "1.0") ]

\* the quadrilateral of a patch, its corners named as the program does on images
PatchOn(strip, xsi, sym, mirror) ==
    LET q == [ a |-> VLerp(strip.a, strip.d, xsi[1]), b |-> VLerp(strip.b, strip.c, xsi[2]),
               c |-> VLerp(strip.b, strip.c, xsi[3]), d |-> VLerp(strip.a, strip.d, xsi[4]) ]
        m == MirrorCorner(sym)
    IN IF mirror THEN [ k \in {"a", "b", "c", "d"} |-> q[m[k]] ] ELSE q

\* from the inner to the outer hinge point, on an image in the xz plane from the image's own inner end
HingeOn(strip, h1, h2, sym, mirror) ==
    LET p1 == VLerp(strip.a, strip.d, h1)
        p2 == VLerp(strip.b, strip.c, h2)
    IN IF mirror /\ sym = 2 THEN VSub(p1, p2) ELSE VSub(p2, p1)
=============================================================================
