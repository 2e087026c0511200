----------------------------- MODULE Atmosphere -----------------------------
(***************************************************************************)
(* The international standard atmosphere (ISO 2533 / US 1976 up to 80 km). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Flt

LOCAL Rearth == "6356766.0"
LOCAL G0     == "9.80665"
LOCAL Rgas   == "287.05287"
LOCAL Kappa  == "1.4"

\* geopotential base altitude, base temperature, lapse rate, base pressure
Layers == <<
    << "-5000.0", "320.65", "-0.0065", "177687.0"  >>,
    <<     "0.0", "288.15", "-0.0065", "101325.0"  >>,
    << "11000.0", "216.65",     "0.0",  "22632.0"  >>,
    << "20000.0", "216.65",   "0.001",   "5474.87" >>,
    << "32000.0", "228.65",  "0.0028",    "868.014" >>,
    << "47000.0", "270.65",     "0.0",    "110.906" >>,
    << "51000.0", "270.65", "-0.0028",     "66.9384" >>,
    << "71000.0", "214.65",  "-0.002",      "3.95639" >> >>

Geopotential(h) == FDiv(FMul(Rearth, h), FAdd(Rearth, h))

InAtmosphere(h) == FFinite(h) /\ FLe("-5004.0", h) /\ FLe(h, "81020.0")

LayerOf(H) == CHOOSE i \in DOMAIN Layers :
                 /\ i = 1 \/ FLe(Layers[i][1], H)
                 /\ i = Len(Layers) \/ FLt(H, Layers[i+1][1])

Temperature(h) ==
    LET H == Geopotential(h)  L == Layers[LayerOf(H)]
    IN  FAdd(L[2], FMul(L[3], FSub(H, L[1])))

Pressure(h) ==
    LET H == Geopotential(h)  L == Layers[LayerOf(H)]  dH == FSub(H, L[1])
    IN  IF FEq(L[3], "0.0")
        THEN FMul(L[4], FExp(FNeg(FMul(FDiv(G0, FMul(Rgas, Temperature(h))), dH))))
        ELSE FMul(L[4], FPow(FAdd("1.0", FMul(FDiv(L[3], L[2]), dH)),
                             FNeg(FDiv(G0, FMul(L[3], Rgas)))))

Density(h) == FDiv(Pressure(h), FMul(Rgas, Temperature(h)))
SpeedOfSound(h) == FSqrt(FMul(Kappa, FMul(Rgas, Temperature(h))))
=============================================================================
