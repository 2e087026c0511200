------------------------------- MODULE TraceRun -------------------------------
(***************************************************************************)
(* Runs recorded traces through a specification.  Start(t) is the state in *)
(* which trace t begins, Clauses(s, e) the set of clauses of the           *)
(* specification that event e violates in state s, Step(s, e) the state    *)
(* after the event, Detail(s, e) what is printed about a failing event.    *)
(* A trace is a behaviour of the specification iff it reaches DONE.        *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

LOCAL INSTANCE Json

LOCAL SayDone(t) == PrintT("@@DONE@@" \o ToJson([t |-> t]))
LOCAL SayFail(t, l, clauses, detail) ==
    PrintT("@@FAIL@@" \o ToJson([t |-> t, l |-> l, c |-> clauses, d |-> detail]))

CONSTANTS Traces, Start(_), Clauses(_, _), Step(_, _), Detail(_, _)
VARIABLES tr, ln, st

TraceVars == <<tr, ln, st>>

TraceInit == /\ tr \in 1..Len(Traces)
             /\ ln = 0
             /\ st = Start(Traces[tr])

TraceNext ==
    LET ev == Traces[tr].ev IN
    /\ ln < Len(ev)
    /\ UNCHANGED tr
    /\ LET e   == ev[ln + 1]
           bad == TLCEval(Clauses(st, e))
       IN  IF bad = {}
           THEN /\ ln' = ln + 1
                /\ st' = Step(st, e)
                /\ (ln + 1 = Len(ev)) => SayDone(tr)
           ELSE /\ SayFail(tr, ln + 1, bad, Detail(st, e))
                /\ ln' = Len(ev) + 1
                /\ st' = st

TraceSpec == TraceInit /\ [][TraceNext]_TraceVars
=============================================================================
