----------------------------- MODULE Deformation -----------------------------
(***************************************************************************)
(* Deformation fields.  A field is a sequence of entries                   *)
(* <<x, y, z, dx, dy, dz, rx, ry, rz>>: a point, its displacement and its  *)
(* rotations (radians).  A point of the wing moves with the closest entry  *)
(* as if rigidly attached to it.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt

Pt(e) == << e[1], e[2], e[3] >>
Shift(e) == << e[4], e[5], e[6] >>
Axes == << <<"1.0", "0.0", "0.0">>, <<"0.0", "1.0", "0.0">>, <<"0.0", "0.0", "1.0">> >>
Rot(r, i, angle) == IF FEq(angle, "0.0") THEN VZero ELSE VSub(VRotate(r, Axes[i], angle), r)
MoveWith(e, p) ==
    LET r == TLCEval(VSub(p, Pt(e)))
    IN VAdd(VAdd(p, Shift(e)), VAdd(Rot(r, 1, e[7]), VAdd(Rot(r, 2, e[8]), Rot(r, 3, e[9]))))
Dist(e, p) == VNorm(VSub(p, Pt(e)))
Closest(field, p) ==
    LET d == TLCEval([ i \in DOMAIN field |-> Dist(field[i], p) ])
    IN CHOOSE i \in DOMAIN field : \A j \in DOMAIN field : FLe(d[i], d[j])
\* without a field nothing moves
Deformed(field, p) == IF field = <<>> THEN p ELSE MoveWith(field[Closest(field, p)], p)

\* ------------------------- which half has which field --------------------
\* fields: function from names to fields.  The field of wing w is called w,
\* that of its mirrored half w_m; names that start with an underscore say nothing.
FieldName(uid, mirror) == IF mirror THEN uid \o "_m" ELSE uid
FieldOf(fields, uid, mirror) == LET n == FieldName(uid, mirror) IN IF n \in DOMAIN fields THEN fields[n] ELSE <<>>
Known(names, ignored, uids) == \A n \in names \ ignored : \E u \in uids : n = u \/ n = u \o "_m"
=============================================================================
