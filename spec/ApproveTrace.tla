---- MODULE ApproveTrace ----
(* Checks recorded runs of the approval script against its contract. *)
EXTENDS Approve, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
\* stop a history at its first objection (otherwise it is judged to its end, and every objection is reported)
Stop == IOEnv.STOP = "1"
VARIABLES t, i, m
vars == <<t, i, m>>

Init == /\ t \in 1..N
        /\ i = 0
        /\ m = [bad |-> {}]
Next == /\ i < Len(Traces[t].ev)
        /\ ~Stop \/ m.bad = {}
        /\ i' = i + 1
        /\ m' = AStep(IF i = 0 THEN AStart(Traces[t]) ELSE [m EXCEPT !.bad = {}], Traces[t].ev[i + 1])
        /\ t' = t
Spec == Init /\ [][Next]_vars
View == <<t, i>>
Report == (m.bad # {}) => PrintT("BAD " \o Traces[t].id \o " " \o ToString(i) \o " " \o ToString(m.bad))
====
