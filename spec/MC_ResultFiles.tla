--------------------------- MODULE MC_ResultFiles ---------------------------
(***************************************************************************)
(* Runs of one project, one after the other, each with its own save        *)
(* options and number of points, writing file by file.                     *)
(***************************************************************************)
EXTENDS ResultFiles, Json

CONSTANTS MaxRuns, MaxN

VARIABLES hist,      \* the runs so far: [opts, n, clean]
          files,     \* file -> [run, pt] whose values it holds
          before,    \* files when the current run began
          k,         \* points done in the current run
          todo,      \* kinds still to be written for the current point
          running
vars == <<hist, files, before, k, todo, running>>

Cur == hist[Len(hist)]
Empty == [ f \in {} |-> 0 ]

Init == hist = <<>> /\ files = Empty /\ before = Empty /\ k = 0 /\ todo = {} /\ running = FALSE

Start == /\ ~running /\ Len(hist) < MaxRuns
         /\ \E o \in SUBSET Kinds, n \in 1..MaxN, c \in BOOLEAN :
              /\ (hist = <<>>) => ~c
              /\ hist' = Append(hist, [opts |-> o, n |-> n, clean |-> c])
              /\ before' = files
              /\ files' = IF c THEN Empty ELSE files
              /\ todo' = o \cap PointKinds
         /\ k' = 0 /\ running' = TRUE
Write == /\ running /\ k < Cur.n /\ todo # {}
         /\ LET kd == CHOOSE x \in todo : TRUE
                f == File(kd, k)
            IN /\ files' = [ g \in DOMAIN files \cup {f} |-> IF g = f THEN [run |-> Len(hist), pt |-> k] ELSE files[g] ]
               /\ todo' = todo \ {kd}
         /\ UNCHANGED <<hist, before, k, running>>
NextPoint == /\ running /\ k < Cur.n /\ todo = {}
             /\ k' = k + 1 /\ todo' = Cur.opts \cap PointKinds
             /\ UNCHANGED <<hist, files, before, running>>
Finish == /\ running /\ k = Cur.n
          /\ LET f == File("aeroperformance", 0)
             IN files' = IF "aeroperformance" \in Cur.opts
                         THEN [ g \in DOMAIN files \cup {f} |-> IF g = f THEN [run |-> Len(hist), pt |-> 0] ELSE files[g] ]
                         ELSE files
          /\ running' = FALSE
          /\ UNCHANGED <<hist, before, k, todo>>
Next == Start \/ Write \/ NextPoint \/ Finish
Spec == Init /\ [][Next]_vars

Runs == [ f \in DOMAIN files |-> files[f].run ]
Old == [ f \in DOMAIN before |-> before[f].run ]
\* a finished run leaves exactly the files asked for, besides what was there before
Exact == (~running /\ hist # <<>>) => Runs = AfterRun(Old, Cur.opts, Cur.n, Cur.clean, Len(hist))
\* a file never holds another point's values
OwnPoint == \A f \in DOMAIN files : f.kind \in PointKinds => files[f].pt = f.i
\* nothing but requested files is written at any moment
OnlyWanted == running => \A f \in DOMAIN files : files[f].run = Len(hist) => f \in Wanted(Cur.opts, Cur.n)
\* two files never share a name
ASSUME \A f, g \in { File(kd, i) : kd \in PointKinds, i \in 0..120 } \cup {File("aeroperformance", 0)} :
           Place("p", f) = Place("p", g) => f = g

PrintCase == (~running /\ Len(hist) = MaxRuns) => PrintT("@@CASE@@" \o ToJson([runs |-> hist]))
=============================================================================
