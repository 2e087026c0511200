----------------------------- MODULE ResultFiles -----------------------------
(***************************************************************************)
(* The result files of a project.  A file is [kind, i]: the global,        *)
(* panelwise and matrix files of flight point i and the one map file       *)
(* ("aeroperformance").  An option set selects the kinds; files maps every *)
(* existing file to the run and the point it holds the values of.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

PointKinds == {"global", "panelwise", "matrix"}
Kinds == PointKinds \cup {"aeroperformance"}
File(k, i) == [kind |-> k, i |-> i]

Wanted(opts, n) == { File(k, i) : k \in opts \cap PointKinds, i \in 0..(n - 1) }
                   \cup (IF "aeroperformance" \in opts THEN {File("aeroperformance", 0)} ELSE {})

\* the files after run r over n points; what an earlier run left stays unless it is cleaned away
AfterRun(old, opts, n, clean, r) ==
    LET w == Wanted(opts, n)
        o == IF clean THEN {} ELSE DOMAIN old
    IN [ f \in o \cup w |-> IF f \in w THEN r ELSE old[f] ]

Pad(i) == IF i < 10 THEN "00" \o ToString(i) ELSE IF i < 100 THEN "0" \o ToString(i) ELSE ToString(i)
\* where the file is found below _results
Place(base, f) ==
    CASE f.kind = "global" -> base \o "_" \o Pad(f.i) \o "/global.json"
      [] f.kind = "panelwise" -> base \o "_" \o Pad(f.i) \o "/panelwise.dat"
      [] f.kind = "matrix" -> base \o "_" \o Pad(f.i) \o "/matrix.dat"
      [] f.kind = "aeroperformance" -> base \o "_aeroperformance.json"
Folder(base, i) == base \o "_" \o Pad(i)
=============================================================================
