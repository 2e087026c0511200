------------------------------- MODULE MC_Cpacs -------------------------------
(***************************************************************************)
(* A CPACS file that is edited and analysed again and again.               *)
(***************************************************************************)
EXTENDS Cpacs, Json

CONSTANTS MaxLen, Only

P3(x, y, z) == <<x, y, z>>
Sg(u, y0, y1, f0, f1) == [uid |-> u, p |-> [a |-> P3("0.0", y0, "0.0"), b |-> P3("0.5", y1, "0.0"), c |-> P3("1.5", y1, "0.0"), d |-> P3("1.0", y0, "0.0")],
                          t |-> P3("0.0", "0.0", "0.125"), fi |-> f0, fo |-> f1]
Ct(u, ei, eo) == [uid |-> u, tei |-> ei, teo |-> eo, ei |-> ei, eo |-> eo, xi |-> "0.75", xo |-> "0.7", hi |-> "0.75", ho |-> "0.7"]
Base == [hasWings |-> TRUE, uid |-> "ac",
    refs |-> [p |-> P3("1.0", "0.0", "0.0"), area |-> "10.0", length |-> "2.0"],
    wings |-> << [uid |-> "W1", named |-> TRUE, sym |-> "2", segs |-> << Sg("W1.s1", "0.0", "2.0", "f1", "f2"), Sg("W1.s2", "2.0", "4.0", "f2", "f1") >>,
                  csegs |-> << [uid |-> "W1c", segs |-> <<1, 2>>, borders |-> <<"0.0", "0.5", "1.0">>, shift |-> "0.01", ctls |-> << Ct("k1", "0.125", "0.375"), Ct("k2", "0.25", "0.75") >>] >>],
                 [uid |-> "W2", named |-> TRUE, sym |-> "0", segs |-> << Sg("W2.s1", "0.0", "2.0", "f1", "f1") >>,
                  csegs |-> << [uid |-> "W2c", segs |-> <<1>>, borders |-> <<"0.0", "1.0">>, shift |-> "0.0", ctls |-> << Ct("k3", "0.25", "0.625") >>] >>] >>,
    devs |-> << [uid |-> "k1", d |-> "5.0", dm |-> "-5.0"], [uid |-> "k3", d |-> "2.0", dm |-> ""] >>,
    maps |-> << [uid |-> "m1", alt |-> <<"0.0", "100.0">>, mach |-> <<"0.2", "0.3">>, aoa |-> <<"1.0", "2.0">>, aos |-> <<"0.0", "1.0">>],
                [uid |-> "m2", alt |-> <<"500.0">>, mach |-> <<"0.25">>, aoa |-> <<"-3.0">>, aos |-> <<"0.0">>] >>,
    sel |-> "m1"]
NoRes == [none |-> TRUE]

VARIABLES doc, res, hist, last, got
vars == <<doc, res, hist, last, got>>
Deflections(d, m) == [ w \in DOMAIN d.wings |-> [ i \in DOMAIN m[w].ctls |-> Deflected(d, d.wings[w], m[w].ctls[i]) ] ]
Model(d) == [ w \in DOMAIN d.wings |-> [segs |-> [ i \in DOMAIN d.wings[w].segs |-> Segment(d.wings[w].segs[i]) ], ctls |-> Ctls(d.wings[w])] ]
\* what an import gives, computed once for each document
Import(d) == LET m == Model(d) IN [model |-> m, defl |-> Deflections(d, m), aircraft |-> AircraftOk(d, m), state |-> StateOk(d)]
Init == doc = Base /\ res = [ u \in {"m1", "m2"} |-> <<NoRes>> ] /\ hist = <<>> /\ last = [op |-> "start", ok |-> TRUE] /\ got = Import(Base)
RunOk == got.aircraft /\ got.state
Do(e) == /\ (Only = {} \/ e.op \in Only)
         /\ LET d == After(doc, e) IN
            /\ doc' = d
            /\ got' = IF d.wings = doc.wings /\ d.devs = doc.devs /\ d.hasWings = doc.hasWings THEN [got EXCEPT !.state = StateOk(d)]
                       ELSE LET m == IF d.wings = doc.wings THEN got.model ELSE TLCEval(Model(d)) IN
                            [model |-> m, defl |-> Deflections(d, m), aircraft |-> AircraftOk(d, m), state |-> StateOk(d)]
            /\ last' = [op |-> e.op, ok |-> e.op # "run" \/ RunOk]
            /\ hist' = Append(hist, e)
            /\ res' = IF e.op = "run" /\ RunOk THEN [res EXCEPT ![doc.maps[Chosen(doc)].uid] = <<Points(doc), got.defl>>] ELSE res
Next == /\ Len(hist) < MaxLen
        /\ \/ \E o \in {"run", "export", "wings", "devorder", "wingorder", "maporder"} : Do([op |-> o])
           \/ \E w \in DOMAIN doc.wings : \/ Do([op |-> "named", w |-> w])
                                          \/ Do([op |-> "sym", w |-> w, v |-> IF doc.wings[w].sym = "2" THEN "0" ELSE "2"])
                                          \/ Len(doc.wings[w].segs) = 1 /\ Do([op |-> "reverse", w |-> w])
           \/ \E i \in DOMAIN doc.devs : \/ \E v \in {"k1", "k2", "k3", "none"} : Do([op |-> "dev", i |-> i, v |-> v])
                                         \/ \E v \in {"", "8.5"}, m \in {"", "-2.5"} : Do([op |-> "deflect", i |-> i, v |-> v, m |-> m])
           \/ Len(doc.devs) > 0 /\ Do([op |-> "devdrop"])
           \/ \E v \in {"m1", "m2", "nothing", ""} : Do([op |-> "select", v |-> v])
           \/ Len(doc.maps) > 1 /\ Do([op |-> "mapdrop"])
           \/ \E i \in DOMAIN doc.maps :
                \/ Len(doc.maps[i].alt) < 3 /\ Do([op |-> "point", i |-> i, alt |-> "1000.0", mach |-> "0.15", aoa |-> "4.0", aos |-> "-1.0"])
                \/ Len(doc.maps[i].alt) > 1 /\ Even(doc.maps[i]) /\ Do([op |-> "unpoint", i |-> i])
                \/ Len(doc.maps[i].alt) > 1 /\ \E v \in {"mach", "aos"} : Even(doc.maps[i]) /\ Do([op |-> "uneven", i |-> i, v |-> v])
Spec == Init /\ [][Next]_vars
View == <<doc, res, last, Len(hist)>>
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist']))

OnlyChosen == [][ \A u \in DOMAIN res : res'[u] # res[u] => last'.op = "run" /\ last'.ok /\ u = doc.maps[Chosen(doc)].uid ]_vars
RunKeepsInput == [][ last'.op \in {"run", "export"} => doc' = doc ]_vars
RefusedWritesNothing == [][ ~last'.ok => res' = res /\ doc' = doc ]_vars
\* after an analysis the chosen map has the results of its own points
Fresh == last.op = "run" /\ last.ok => res[doc.maps[Chosen(doc)].uid][1] = Points(doc)
\* the way in which a segment is described makes no difference
EndsDoNotMatter == [][ last'.op = "reverse" => got'.model = got.model ]_vars
\* neither does the order of deflections of different controls, or where in the file a map or wing stands
OrderOfDevices == [][ (last'.op = "devorder" /\ Cardinality({ doc.devs[i].uid : i \in DOMAIN doc.devs }) = Len(doc.devs)) => got'.defl = got.defl ]_vars
OrderOfWings == [][ last'.op = "wingorder" => got'.defl = [ w \in DOMAIN doc.wings |-> got.defl[Len(doc.wings) + 1 - w] ] ]_vars
OrderOfMaps == [][ last'.op = "maporder" => got'.state = got.state /\ (got.state => Points(doc') = Points(doc)) ]_vars
\* selecting a map does not change the aircraft
Separate == [][ last'.op \in {"select", "mapdrop", "point", "unpoint", "uneven", "maporder"} => got'.defl = got.defl /\ got'.aircraft = got.aircraft ]_vars
\* every control has a deflection, and only those with a device have one that is not zero
Deflects == got.aircraft => \A w \in DOMAIN doc.wings : \A i \in DOMAIN got.model[w].ctls :
    LET v == got.defl[w][i]  u == got.model[w].ctls[i].u IN
    /\ (\A j \in DOMAIN doc.devs : doc.devs[j].uid # u) => FEq(v.deflection, "0.0") /\ v.mirror \in {"", "0.0"}
    /\ (v.mirror = "") = (doc.wings[w].sym = "0")
NamesStayUnique == \A i, j \in DOMAIN doc.wings : WingUid(doc, i) = WingUid(doc, j) => i = j
=============================================================================
