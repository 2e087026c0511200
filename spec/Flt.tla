-------------------------------- MODULE Flt --------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.  A real number is written as a   *)
(* decimal string ("0.25", "-1.5e-3", "NaN", "Infinity"), which is also    *)
(* how the recorded traces carry it, because TLC's integers are 32-bit.    *)
(* The operators denote IEEE-754 binary64 operations; TLC evaluates them   *)
(* with spec/java/tlc2/overrides/FltOverrides.java.  They are total: an    *)
(* operand that is no number counts as NaN, and every comparison with NaN  *)
(* is FALSE, so that a malformed observation fails a clause instead of     *)
(* stopping TLC.                                                           *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

FAdd(a, b)  == CHOOSE x \in STRING : TRUE
FSub(a, b)  == CHOOSE x \in STRING : TRUE
FMul(a, b)  == CHOOSE x \in STRING : TRUE
FDiv(a, b)  == CHOOSE x \in STRING : TRUE
FNeg(a)     == CHOOSE x \in STRING : TRUE
FAbs(a)     == CHOOSE x \in STRING : TRUE
FSqrt(a)    == CHOOSE x \in STRING : TRUE
FSin(a)     == CHOOSE x \in STRING : TRUE     \* radians
FCos(a)     == CHOOSE x \in STRING : TRUE
FAsin(a)    == CHOOSE x \in STRING : TRUE
FAtan2(a, b) == CHOOSE x \in STRING : TRUE
FExp(a)     == CHOOSE x \in STRING : TRUE
FPow(a, b)  == CHOOSE x \in STRING : TRUE
FMax(a, b)  == CHOOSE x \in STRING : TRUE
FMin(a, b)  == CHOOSE x \in STRING : TRUE
FLt(a, b)   == CHOOSE x \in BOOLEAN : TRUE
FLe(a, b)   == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b)   == CHOOSE x \in BOOLEAN : TRUE
FFinite(a)  == CHOOSE x \in BOOLEAN : TRUE
FNear(a, b, tol) == CHOOSE x \in BOOLEAN : TRUE   \* |a-b| <= tol
FCeil(a)    == CHOOSE x \in Nat : TRUE            \* an integer, not a string
FSum(s)     == CHOOSE x \in STRING : TRUE         \* sum of a sequence
FMaxAbs(s)  == CHOOSE x \in STRING : TRUE         \* largest |s[i]|, 0 if empty
FDot(u, v)  == CHOOSE x \in STRING : TRUE

\* 3-vectors are sequences of three reals
VAdd(u, v)   == << FAdd(u[1], v[1]), FAdd(u[2], v[2]), FAdd(u[3], v[3]) >>
VSub(u, v)   == << FSub(u[1], v[1]), FSub(u[2], v[2]), FSub(u[3], v[3]) >>
VScale(k, v) == << FMul(k, v[1]), FMul(k, v[2]), FMul(k, v[3]) >>
VCross(u, v) == << FSub(FMul(u[2], v[3]), FMul(u[3], v[2])),
                   FSub(FMul(u[3], v[1]), FMul(u[1], v[3])),
                   FSub(FMul(u[1], v[2]), FMul(u[2], v[1])) >>
VNorm(u)     == FSqrt(FDot(u, u))
VNear(u, v, tol) == /\ Len(u) = Len(v)
                    /\ \A i \in 1..Len(u) : FNear(u[i], v[i], tol)

\* -------- derived operators (plain TLA+, no override) --------
FPi == "3.141592653589793"
FDeg2Rad(a) == FDiv(FMul(a, FPi), "180.0")
FRad2Deg(a) == FDiv(FMul(a, "180.0"), FPi)
FSq(a)      == FMul(a, a)
FGt(a, b)   == FLt(b, a)
FGe(a, b)   == FLe(b, a)
\* a and b agree to relative tolerance rt with respect to the magnitude scale
FClose(a, b, rt, scale) == FNear(a, b, FMul(rt, scale))
VZero == <<"0.0", "0.0", "0.0">>
VUnit(u) == VScale(FDiv("1.0", VNorm(u)), u)
VLerp(u, v, k) == VAdd(u, VScale(k, VSub(v, u)))       \* u + k (v - u)
VMid(u, v) == VScale("0.5", VAdd(u, v))
VFinite(u) == \A i \in DOMAIN u : FFinite(u[i])
\* rotation of v about the (not necessarily unit) axis by the angle (radians),
\* right-handed (Rodrigues)
VRotate(v, axis, angle) ==
    LET k == VUnit(axis)  c == FCos(angle)  s == FSin(angle)
    IN  VAdd(VAdd(VScale(c, v), VScale(s, VCross(k, v))),
             VScale(FMul(FDot(k, v), FSub("1.0", c)), k))
=============================================================================
