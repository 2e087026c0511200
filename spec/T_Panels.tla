------------------------------- MODULE T_Panels -------------------------------
(***************************************************************************)
(* Traces of whole runs: panel counts and the bookkeeping of panel numbers.*)
(* run(ac, auto, outcome), then count(wings, entries, bywing, info, rows).         *)
(***************************************************************************)
EXTENDS Panelling, TraceBase

VARIABLES tr, ln, st

Start(t) == [ac |-> <<>>, auto |-> [c |-> 4, s |-> 4]]
Tol == "1e-9"

OWing(e, uid) == SelectSeq(e.wings, LAMBDA w : w.uid = uid)[1]

\* the key of a patch in the bookkeeping
Key(w, s, strip, type, mirror) ==
    [w |-> w.uid, s |-> s.uid, ea |-> strip.ea, type |-> type, mirror |-> mirror]
EntryKey(x) == [w |-> x.w, s |-> x.s, ea |-> x.ea, type |-> x.type, mirror |-> x.mirror]

WingKeys(w, ow) ==
    UNION { UNION { { Key(w, w.segs[i], st2, ty, m) : ty \in PatchTypes(st2), m \in Sides(w) }
                    : st2 \in ToSet(AbsStrips(ow.segs[i].strips)) } : i \in DOMAIN w.segs }

Keys(ac, e) == UNION { WingKeys(ac.wings[k], OWing(e, ac.wings[k].uid)) : k \in DOMAIN ac.wings }

EntryStrip(e, x) ==
    LET ow == OWing(e, x.w)
        os == SelectSeq(ow.segs, LAMBDA s : s.uid = x.s)[1]
    IN SelectSeq(AbsStrips(os.strips), LAMBDA q : q.ea = x.ea)[1]

CountClauses(s, e) ==
    LET ac == s.ac
        N  == e.info.num_panels
        es == e.entries
        keys == TLCEval(Keys(ac, e))
        seen == TLCEval({ EntryKey(es[k]) : k \in DOMAIN es })
        ows == TLCEval([ k \in DOMAIN ac.wings |-> OWing(e, ac.wings[k].uid) ])
    IN Failing(<<
        <<"GivenNumbersKept", \A k \in DOMAIN ac.wings : \A i \in DOMAIN ac.wings[k].segs :
            LET g == ac.wings[k].segs[i]  o == ows[k].segs[i]
            IN (g.num_c # 0 => o.num_c = g.num_c) /\ (g.num_s # 0 => o.num_s = g.num_s)>>,
        <<"AutopanelsChordwise", \A k \in DOMAIN ac.wings : \A i \in DOMAIN ac.wings[k].segs :
            ows[k].segs[i].num_c = SegNumC(ac.wings[k].segs[i], s.auto)>>,
        <<"AutopanelsSpanwise", \A k \in DOMAIN ac.wings : \A i \in DOMAIN ac.wings[k].segs :
            ows[k].segs[i].num_s \in SegNumS(ac.wings[k], ac.wings[k].segs[i], s.auto)>>,
        <<"ControlNumbers", \A k \in DOMAIN ac.wings : \A i \in DOMAIN ac.wings[k].ctls :
            CtlOf([ctls |-> ows[k].ctls], ac.wings[k].ctls[i].u).num_c = CtlNumC(ac.wings[k].ctls[i], s.auto)>>,
        <<"DividedInSpan", \A k \in DOMAIN ac.wings :
            LET w == ac.wings[k]
                want == TLCEval(WingStrips(w, [ i \in DOMAIN w.segs |-> ows[k].segs[i].num_s ])).wss
            IN \A i \in DOMAIN w.segs :
                LET got == AbsStrips(ows[k].segs[i].strips)
                IN Len(got) = Len(want[i]) /\ \A j \in DOMAIN got : FNear(got[j].ea, want[i][j].ea, Tol)
                                                                 /\ FNear(got[j].eb, want[i][j].eb, Tol)>>,
        <<"EveryPatchAndImageOnce", keys = seen /\ Cardinality(seen) = Len(es)>>,
        <<"PatchesHaveTheirNumberOfPanels", \A k \in DOMAIN es :
            LET w == WingOf(ac, es[k].w)
            IN es[k].n \in PatchNumC(w, SegOf(w, es[k].s), EntryStrip(e, es[k]), es[k].type, s.auto)>>,
        <<"PatchOfItsControl", \A k \in DOMAIN es :
            es[k].u = IF es[k].type = "segment" THEN "" ELSE EntryStrip(e, es[k])[es[k].type].u>>,
        <<"PanelNumbersArePartition", Partition(es)>>,
        \* the same entries, by wing and side
        <<"EntriesByWing",
            /\ \A k \in DOMAIN e.bywing : LET b == e.bywing[k] IN
                  b.at = SelectSeq([ i \in DOMAIN es |-> i ], LAMBDA i : es[i].w = b.w /\ es[i].mirror = b.mirror)
            /\ FoldLeft(LAMBDA acc, b : acc + Len(b.at), 0, e.bywing) = Len(es)>>,
        <<"NumberOfPanels", N = FoldLeft(LAMBDA acc, x : acc + x.n, 0, es)>>,
        <<"AllResultsHaveOneRowPerPanel", \A k \in DOMAIN e.rows : e.rows[k] = N>>,
        <<"ReportedCounts", /\ e.info.num_wings = Len(ac.wings)
                            /\ e.info.num_controls = FoldLeft(LAMBDA acc, w : acc + Len(w.ctls), 0, ac.wings)
                            /\ e.info.num_strips = N
                            /\ e.info.num_segments = Len(es)>> >>)

Clauses(s, e) ==
    CASE e.e = "run" -> Failing(<< <<"Accepted", AllFit(e.ac) => e.outcome = "ok">> >>)
      [] e.e = "count" -> IF Len(e.wings) # Len(s.ac.wings) THEN {"AllWingsModelled"} ELSE CountClauses(s, e)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == IF e.e = "run" THEN [ac |-> e.ac, auto |-> e.auto] ELSE s
Detail(s, e) == [ev |-> e]

INSTANCE TraceRun
=============================================================================
