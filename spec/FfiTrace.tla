---- MODULE FfiTrace ----
(* Checks traces recorded from the probe plugins against the framework's contract. *)
EXTENDS Ffi, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
\* stop a history at its first objection (otherwise it is judged to its end, and every objection is reported)
Stop == IOEnv.STOP = "1"
VARIABLES t, i, m
vars == <<t, i, m>>

Begin(tr) == FStart(tr, {tr.focus[x] : x \in DOMAIN tr.focus})
Init == /\ t \in 1..N
        /\ i = 0
        /\ m = [bad |-> {}]
Next == /\ i < Len(Traces[t].ev)
        /\ ~Stop \/ m.bad = {}
        /\ i' = i + 1
        /\ m' = FStep(IF i = 0 THEN Begin(Traces[t]) ELSE [m EXCEPT !.bad = {}], Traces[t].ev[i + 1])
        /\ t' = t
Spec == Init /\ [][Next]_vars
\* m is a function of t and i
View == <<t, i>>

\* report every event that breaks the contract
Report == (m.bad # {}) => PrintT("BAD " \o Traces[t].id \o " " \o ToString(i) \o " " \o ToString(m.bad))
====
