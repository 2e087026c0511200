------------------------------- MODULE MC_Plots -------------------------------
(***************************************************************************)
(* Runs of a project with changing plot options.                           *)
(***************************************************************************)
EXTENDS Plots, Json

CONSTANTS MaxLen, Opts, Many

How == {"none", "save", "show", "both"}
On(h, opt) == [save |-> h \in {"save", "both"}, show |-> h \in {"show", "both"}, opt |-> opt]
OptsOf == CASE Opts = "few" -> { <<>>, <<"cp", "fmag">> } [] OTHER -> { <<>>, <<"cp">>, <<"fmag", "gamma">>, <<"cp", "cp">>, <<"vmag">> }
Configs == { [geometry |-> On(g, <<>>), lattice |-> On(l, <<>>), results |-> On(r, o), matrix_downwash |-> On(m, <<>>)] : g \in How, l \in How, r \in How, m \in How, o \in OptsOf }
\* every kind on its own or all alike
Simple == { c \in Configs : Cardinality({ [s |-> c[k].save, w |-> c[k].show] : k \in Kinds }) <= (IF Many THEN 4 ELSE 2) }

VARIABLES files, windows, hist, last
vars == <<files, windows, hist, last>>
Init == files = <<>> /\ windows = [downwash |-> 0, views |-> 0, results |-> <<>>] /\ hist = <<>> /\ last = [op |-> "start"]
Run(c, n) == /\ files' = AfterRun(files, c, n)
             /\ windows' = WindowsOf(c)
             /\ last' = [op |-> "run", c |-> c, n |-> n]
             /\ hist' = Append(hist, last')
Clean == files' = <<>> /\ windows' = [downwash |-> 0, views |-> 0, results |-> <<>>] /\ last' = [op |-> "clean"] /\ hist' = Append(hist, last')
Next == Len(hist) < MaxLen /\ ((\E c \in Simple, n \in {1, 2} : Run(c, n)) \/ (Len(hist) > 0 /\ Clean))
Spec == Init /\ [][Next]_vars
View == <<files, last, Len(hist)>>
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist']))

Grows == [][ last'.op = "run" => \A i \in DOMAIN files : \A n \in DOMAIN files[i] : At(AtPoint(files', i), n) >= files[i][n] ]_vars
NothingIfNotSaved == [][ last'.op = "run" /\ (\A k \in Kinds : ~last'.c[k].save) => \A i \in DOMAIN files' : AtPoint(files', i) = AtPoint(files, i) ]_vars
\* showing makes no files
ShowMakesNone == [][ last'.op = "run" => files' = AfterRun(files, [ k \in Kinds |-> [last'.c[k] EXCEPT !.show = ~@] ], last'.n) ]_vars
\* saving opens no windows
SaveOpensNone == [][ last'.op = "run" => windows' = WindowsOf([ k \in Kinds |-> [last'.c[k] EXCEPT !.save = ~@] ]) ]_vars
EveryPointAlike == [][ (last'.op = "run" /\ files = <<>>) => \A i, j \in DOMAIN files' : files'[i] = files'[j] ]_vars
TwoViews == \A i \in DOMAIN files : \A n \in DOMAIN files[i] : n # "downwash" =>
              LET b == SubSeq(n, 1, Len(n) - 2) IN files[i][b \o "2D"] = files[i][b \o "3D"]
=============================================================================
