------------------------------- MODULE RunLoop -------------------------------
(***************************************************************************)
(* The loop of a run over an aeroperformance map.  Points are opaque; what *)
(* the method computes for a point is Single(p), a function of that point  *)
(* (and of the fixed aircraft and settings) alone.  The program keeps one  *)
(* aircraft model (its strips are made for the first point and reused),    *)
(* one lattice per point and one data structure for the solution, which is *)
(* overwritten.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Points, MaxLen

VARIABLES map,       \* the points, in order
          k,         \* points done
          strips,    \* how often the aircraft was divided into strips
          lattice,   \* the point the lattice (trailing legs) belongs to
          vlm,       \* the point the solution belongs to
          results,   \* what was appended to the result lists
          folders    \* number of the folder -> point whose results are in it
vars == <<map, k, strips, lattice, vlm, results, folders>>

None == "none"
Single(p) == p

Init == /\ \E n \in 1..MaxLen : map \in [1..n -> Points]
        /\ k = 0 /\ strips = 0 /\ lattice = None /\ vlm = None /\ results = <<>> /\ folders = <<>>

Lattice == /\ k < Len(map) /\ lattice = None
           /\ strips' = IF k = 0 THEN strips + 1 ELSE strips
           /\ lattice' = map[k + 1]
           /\ UNCHANGED <<map, k, vlm, results, folders>>
Solve == /\ lattice # None /\ vlm # lattice
         /\ vlm' = lattice
         /\ UNCHANGED <<map, k, strips, lattice, results, folders>>
Store == /\ lattice # None /\ vlm = lattice
         /\ results' = Append(results, Single(vlm))
         /\ folders' = Append(folders, vlm)           \* folder k
         /\ k' = k + 1 /\ lattice' = None /\ vlm' = None
         /\ UNCHANGED <<map, strips>>
Next == Lattice \/ Solve \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

EachOnItsOwn == \A i \in 1..Len(results) : results[i] = Single(map[i])
OneFolderEach == Len(folders) = k /\ Len(results) = k /\ \A i \in 1..k : folders[i] = map[i]
DividedOnce == strips <= 1
AllDone == <>(k = Len(map))
Done == k = Len(map)
PrintCase == Done => PrintT("@@CASE@@" \o ToJson([map |-> map]))
=============================================================================
