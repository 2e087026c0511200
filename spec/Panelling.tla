------------------------------ MODULE Panelling ------------------------------
(***************************************************************************)
(* From an aircraft definition to strips, patches and panel numbers.       *)
(***************************************************************************)
EXTENDS Aircraft, TilingObs

(* --------------------- controls over several segments ------------------- *)
\* the parts of control c: [seg, ea, eb, x1, x2, h1, h2]
ControlParts(w, c) ==
    IF c.si = c.so
    THEN << [seg |-> c.si, ea |-> c.ea, eb |-> c.eb, x1 |-> c.x1, x2 |-> c.x2, h1 |-> c.h1, h2 |-> c.h2] >>
    ELSE
    LET xm == FMul("0.5", FAdd(c.x1, c.x2))
        n  == c.so - c.si + 1
        ea(i) == IF i = 1 THEN c.ea ELSE "0.0"
        eb(i) == IF i = n THEN c.eb ELSE "1.0"
        \* length of the edge line, drawn with the mean edge position at the borders
        len == TLCEval([ i \in 1..n |->
                 LET s == w.segs[c.si + i - 1]
                 IN VNorm(VSub(SegPoint(s, eb(i), IF i = n THEN c.x2 ELSE xm),
                               SegPoint(s, ea(i), IF i = 1 THEN c.x1 ELSE xm))) ])
        upto == TLCEval([ i \in 0..n |-> FDiv(FSum(SubSeq(len, 1, i)), FSum(len)) ])
        at(p, q, i) == FAdd(p, FMul(upto[i], FSub(q, p)))
    IN [ i \in 1..n |-> [seg |-> c.si + i - 1, ea |-> ea(i), eb |-> eb(i),
                         x1 |-> at(c.x1, c.x2, i-1), x2 |-> at(c.x1, c.x2, i),
                         h1 |-> at(c.h1, c.h2, i-1), h2 |-> at(c.h1, c.h2, i)] ]

\* wing strips: a sequence (per segment) of strips
AddWingControl(w, wss, c) ==
    LET parts == ControlParts(w, c)
        Part(acc, p) ==
            LET r == TLCEval(AddControl(w.segs[p.seg], acc.wss[p.seg],
                             [u |-> c.u, type |-> c.type, ea |-> p.ea, eb |-> p.eb,
                              x1 |-> p.x1, x2 |-> p.x2, h1 |-> p.h1, h2 |-> p.h2]))
            IN IF ~acc.ok THEN acc
               ELSE TLCEval([ok |-> r.ok, wss |-> [acc.wss EXCEPT ![p.seg] = r.ss]])
    IN FoldLeft(Part, [ok |-> TRUE, wss |-> wss], parts)

WingControls(w) ==
    FoldLeft(LAMBDA acc, c : IF acc.ok THEN AddWingControl(w, acc.wss, c) ELSE acc,
             [ok |-> TRUE, wss |-> [ i \in DOMAIN w.segs |-> Fresh ]], w.ctls)

\* spanwise divisions of a segment into n parts
Divided(s, ss, n) ==
    FoldLeft(LAMBDA acc, k : AddBorder(s, acc, FMul(ToString(k), FDiv("1.0", ToString(n)))),
             ss, [ i \in 1..(n-1) |-> i ])

\* ns: the number of divisions of every segment
WingStrips(w, ns) ==
    LET r == TLCEval(WingControls(w))
    IN [r EXCEPT !.wss = TLCEval([ i \in DOMAIN w.segs |-> Divided(w.segs[i], r.wss[i], ns[i]) ])]

\* do all controls of the aircraft find a place?
AllFit(ac) == \A i \in DOMAIN ac.wings : WingControls(ac.wings[i]).ok

(* ----------------------------- panel counts ---------------------------- *)
\* ceil(x), allowing for rounding noise in x: a set of admissible values
Ceils(x) == LET lo == FCeil(FSub(x, "1e-9"))  hi == FCeil(FAdd(x, "1e-9"))
            IN { IF k < 1 THEN 1 ELSE k : k \in {lo, hi} }

SegNumC(s, auto) == IF s.num_c # 0 THEN s.num_c ELSE auto.c
CtlNumC(c, auto) == IF c.num_c # 0 THEN c.num_c ELSE auto.c
SegNumS(w, s, auto) == IF s.num_s # 0 THEN {s.num_s}
                       ELSE Ceils(FMul(FDiv(SegSpan(s), WingSpan(w)), ToString(auto.s)))

\* mean share of the chord of the main patch of strip s
MainLength(s) ==
    LET le == IF IsNone(s.slat) THEN "0.0" ELSE FMul("0.5", FAdd(s.slat.x1, s.slat.x2))
        te == IF IsNone(s.flap) THEN "1.0" ELSE FMul("0.5", FAdd(s.flap.x1, s.flap.x2))
    IN FSub(te, le)

\* admissible numbers of chordwise panels of a patch
PatchNumC(w, s, strip, type, auto) ==
    IF type = "segment" THEN Ceils(FMul(MainLength(strip), ToString(SegNumC(s, auto))))
    ELSE { CtlNumC(CtlOf(w, strip[type].u), auto) }

PatchTypes(strip) == {"segment"} \cup (IF IsNone(strip.slat) THEN {} ELSE {"slat"})
                                 \cup (IF IsNone(strip.flap) THEN {} ELSE {"flap"})
Sides(w) == IF w.sym = 0 THEN {FALSE} ELSE {FALSE, TRUE}

\* panel numbers: the ranges of the entries partition 0..N-1
Contiguous(e) == /\ Len(e.idx) = e.n
                 /\ \A i \in 1..Len(e.idx) : e.idx[i] = e.idx[1] + i - 1
Partition(es) ==
    LET N == FoldLeft(LAMBDA acc, e : acc + e.n, 0, es)
    IN /\ \A k \in DOMAIN es : Contiguous(es[k])
       /\ UNION { ToSet(es[k].idx) : k \in DOMAIN es } = 0..(N - 1)
=============================================================================
