------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common parts of the trace specifications.  A trace is a sequence of     *)
(* events recorded from the real program; tr selects one, ln is the number *)
(* of events consumed so far and st the state of the specification.        *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE IOUtils
LOCAL INSTANCE Json

Traces == JsonDeserialize(IOEnv.VT_TRACE)
Has(r, f) == f \in DOMAIN r
\* the names of the failing clauses: checks is a sequence of <<name, boolean>>
Failing(checks) == { checks[i][1] : i \in { j \in DOMAIN checks : ~checks[j][2] } }
=============================================================================
