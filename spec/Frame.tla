---- MODULE Frame ----
(* The design of the plugin framework (sudo_plugin): what happens between a
   callback of sudo's I/O plugin interface and the plugin built on it.  One
   action per stage of a callback; what the plugin does when it is reached, and
   what sudo calls next, is chosen freely.  Every action emits the events a
   recording of the real framework contains, and the contract (Ffi.tla) watches
   in lockstep.

   With History = TRUE the choices are recorded, which makes every behaviour a
   scenario that is replayed on the probe plugins (harness/probe). *)
EXTENDS Ffi, FCases, Json

CONSTANTS CaseIds,      \* which of FCases to explore
          MaxCalls,     \* how many calls sudo makes
          MaxActs,      \* how many times a plugin does something other than succeed
          History, Bugs

VARIABLES ci, P, left, hist, m
vars == <<ci, P, left, hist, m>>
Case == FCases[ci]
B(b) == b \in Bugs
c == m.c

P0 == [pc |-> "idle", call |-> "", s |-> "", d |-> <<>>, a |-> [k |-> "ok", o |-> 0, l |-> 0, t |-> <<>>], inst |-> 0, env |-> FALSE, made |-> 0, opened |-> FALSE, boom |-> FALSE]
Init == /\ ci \in CaseIds /\ P = P0 /\ left = [c |-> MaxCalls, a |-> MaxActs] /\ hist = <<>>
        /\ m = FStart([hosts |-> <<Case.host>>, kind |-> Case.kind, nkeys |-> 0, facts |-> FALSE, pver |-> Case.pver], {})

Emit(q) == m' = FoldLeft(LAMBDA x, e : IF x.bad = {} THEN FStep(x, e) ELSE x, m, q)
Rec(o) == hist' = IF History THEN Append(hist, o) ELSE hist
Set(r) == P' = r
Pf(lv, t) == IF c.pf = "ok" /\ t # <<>> THEN <<[e |-> "printf", lv |-> lv, d |-> IF B("fmt") THEN SelectSeq(t, LAMBDA b : b # 37) ELSE t]>> ELSE <<>>
Show(lv, t) == Pf(IF B("level") /\ lv = 3 THEN 4 ELSE lv, t)
Ret(r) == <<[e |-> "ret", c |-> P.call, r |-> r]>>
Idle == [P EXCEPT !.pc = "idle", !.call = ""]

----------------------------------------------------------------------------
\* sudo
Data(s) == CASE s = "ttyin" -> << <<65, 2>> >> [] s = "ttyout" -> << <<27, 1>>, <<0, 3>> >> [] s = "stdin" -> <<>> [] s = "stdout" -> << <<255, 1>> >> [] OTHER -> << <<37, 1>>, <<115, 1>> >>
Ops == {[c |-> "log", s |-> s, d |-> Data(s)] : s \in {"ttyin", "ttyout", "stdin", "stdout", "stderr"}}
       \cup {[c |-> "winsize", l |-> <<50>>, w |-> <<48>>], [c |-> "close", x |-> <<45, 49>>, y |-> <<53>>]}
       \cup {[c |-> "version", x |-> <<v>>] : v \in {48, 49}}
Call == /\ P.pc = "idle" /\ left.c > 0 /\ left' = [left EXCEPT !.c = @ - 1]
        /\ \E o \in Ops \cup (IF P.opened THEN {} ELSE {[c |-> "open"]}) :
             /\ o.c = "version" => P.env        \* sudo asks for the version only of a plugin it has opened
             /\ Set([P EXCEPT !.pc = "in", !.call = o.c, !.s = IF o.c = "log" THEN o.s ELSE "", !.d = IF o.c = "log" THEN o.d ELSE <<>>, !.opened = @ \/ o.c = "open"])
             /\ Emit(<<CASE o.c = "open" -> [e |-> "call", c |-> "open", ty |-> 2, vm |-> 1]
                         [] o.c = "log" -> [e |-> "call", c |-> "log", m |-> o.s, d |-> o.d]
                         [] o.c = "winsize" -> [e |-> "call", c |-> "winsize", l |-> o.l, w |-> o.w]
                         [] o.c = "close" -> [e |-> "call", c |-> "close", x |-> o.x, y |-> o.y]
                         [] OTHER -> [e |-> "call", c |-> "version", x |-> o.x]>>)
             /\ Rec(o)
        /\ UNCHANGED ci

----------------------------------------------------------------------------
\* the framework's own decisions, before the plugin is reached
Refuse(t) == /\ Emit(Show(3, L_LF \o L_ProbeTag \o t \o L_LF) \o Ret(FwOpen(m))) /\ Set(Idle)
Enter == /\ P.pc = "in" /\ UNCHANGED <<ci, left, hist>>
         /\ CASE P.call = "open" ->
                   LET d == FDisp(c) IN
                   IF d = "api" /\ ~B("apiok") THEN Refuse(L_V19 \o L_LF \o DecOf(c.maj) \o <<46>> \o DecOf(c.min))
                   ELSE IF d = "facts" /\ ~B("factsok") THEN Refuse(CHOOSE k \in BadFacts(c) : TRUE)
                   ELSE IF d = "query" /\ ~B("queryinst") THEN Emit(Ret(1)) /\ Set([Idle EXCEPT !.env = TRUE])
                   ELSE UNCHANGED m /\ Set([P EXCEPT !.pc = "method", !.env = TRUE, !.made = @ + 1])
              [] P.call \in {"log", "winsize"} ->
                   IF P.inst = 0 THEN Emit(Ret(IF B("lateok") THEN 1 ELSE IF B("latequiet") THEN -1 ELSE 0)) /\ Set(Idle)
                   ELSE IF ~Ignoring(m) /\ ((P.call = "log" /\ ~Hint(c, IF B("hint") /\ P.s = "stderr" THEN "stdout" ELSE P.s)) \/ (B("winskip") /\ P.call = "winsize" /\ ~Hint(c, "ttyout")))
                        THEN Emit(Ret(IF B("skip0") THEN 0 ELSE 1)) /\ Set(Idle)
                   ELSE UNCHANGED m /\ Set([P EXCEPT !.pc = "method"])
              [] P.call = "close" ->
                   IF P.inst = 0 THEN Emit(Ret(99)) /\ Set(Idle)
                   ELSE UNCHANGED m /\ Set([P EXCEPT !.pc = IF Case.kind = "a" THEN "method" ELSE "drop"])
              [] OTHER ->
                   IF Case.kind = "b" THEN UNCHANGED m /\ Set([P EXCEPT !.pc = "method"])
                   ELSE Emit(Show(4, L_ProbeName \o <<32>> \o (IF B("fwver") THEN L_V19 ELSE m.pver) \o L_LF) \o Ret(1)) /\ Set(Idle)

----------------------------------------------------------------------------
\* the plugin
T1 == <<37, 115, 37, 110>>
T2 == <<97>>
Acts == {[k |-> "ok", o |-> 0, l |-> 0, t |-> <<>>], [k |-> "panic", o |-> 0, l |-> 0, t |-> <<>>]}
        \cup (IF Case.kind = "a" THEN {[k |-> "err", o |-> ol[1], l |-> ol[2], t |-> ol[3]] : ol \in {<<-1, 0, <<T1>>>>, <<-2, -1, <<T2, T1>>>>, <<0, 1, <<T2, T2, T1>>>>, <<1, 0, <<T1, T2>>>>}}
              ELSE {[k |-> "err", o |-> -1, l |-> 0, t |-> <<T1>>]})
        \cup {[k |-> k, o |-> lv, l |-> 0, t |-> <<T1>>] : k \in {"print", "line"}, lv \in {3, 4}}
Name == IF P.call = "log" THEN (IF B("swap") /\ P.s = "stdout" THEN "stderr" ELSE P.s) ELSE P.call
RTake1(d) == IF d = <<>> THEN <<>> ELSE Tail(d)
Event(a) == LET e == [e |-> "m", m |-> Name, i |-> IF P.call = "open" THEN P.made ELSE IF P.call = "version" THEN 0 ELSE P.inst, a |-> a] IN
  CASE P.call = "log" -> [d |-> IF B("cut") THEN RTake1(P.d) ELSE P.d] @@ e
    [] P.call = "winsize" -> [x |-> IF B("crossed") THEN m.y ELSE m.x, y |-> IF B("crossed") THEN m.x ELSE m.y] @@ e
    [] P.call = "close" -> [x |-> m.x, y |-> m.y] @@ e
    [] P.call = "version" -> [x |-> m.x # <<48>>] @@ e
    [] OTHER -> e
Method == /\ P.pc = "method"
          /\ \E a \in Acts : /\ a.k # "ok" => left.a > 0
                             /\ left' = IF a.k = "ok" THEN left ELSE [left EXCEPT !.a = @ - 1]
                             /\ Emit((IF B("twicecalled") /\ P.call = "log" THEN <<Event(a)>> ELSE <<>>) \o <<Event(a)>>
                                     \o (IF a.k = "print" THEN Show(a.o, a.t[1]) ELSE IF a.k = "line" THEN Show(a.o, L_ProbeTag \o a.t[1] \o L_LF) ELSE <<>>))
                             /\ Set([P EXCEPT !.a = a, !.pc = IF P.call = "close" THEN "drop" ELSE "back"])
                             /\ Rec([c |-> "act", a |-> a])
          /\ UNCHANGED ci
Good == P.a.k \in {"ok", "print", "line"}
Texts == LET all == FoldLeft(LAMBDA x, t : x \o L_ProbeTag \o t \o L_LF, L_LF, IF B("nocause") THEN <<P.a.t[1]>> ELSE P.a.t) IN IF B("twice") THEN all \o all ELSE all
Back == /\ P.pc = "back" /\ UNCHANGED <<ci, left, hist>>
        /\ LET shown == IF P.a.k = "err" /\ P.call # "version" THEN Show(3, Texts) ELSE <<>>
               r == CASE P.call = "open" -> IF Good THEN 1 ELSE IF P.a.k = "panic" THEN FwOpen(m) ELSE IF B("errdeny") THEN -1 ELSE OpenCode(P.a.o)
                      [] P.call = "version" -> 1
                      [] OTHER -> IF Good THEN 1 ELSE IF P.a.k = "panic" THEN (IF B("panicok") THEN 1 ELSE 0) ELSE IF B("errdeny") THEN 0 ELSE LogCode(P.a.l) IN
           /\ Emit(shown \o Ret(r))
           /\ Set([Idle EXCEPT !.inst = IF P.call = "open" /\ Good THEN P.made ELSE @])
Destroy == /\ P.pc = "drop" /\ UNCHANGED <<ci, left, hist>>
           /\ Emit((IF B("leak") THEN <<>> ELSE <<[e |-> "m", m |-> "drop", i |-> P.inst, a |-> [k |-> "ok"]]>>) \o Ret(99))
           /\ Set([Idle EXCEPT !.inst = IF B("zombie") THEN @ ELSE 0])

Next == Call \/ Enter \/ Method \/ Back \/ Destroy
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Enter \/ Method \/ Back \/ Destroy)

Holds == IF m.bad = {} THEN TRUE ELSE PrintT("OBJECTION " \o ToString(m.bad)) /\ FALSE
\* every callback comes back, whatever the plugin does
Returns == [](P.pc # "idle" => <>(P.pc = "idle"))
\* an instance exists exactly from a successful opening until close
Alive == (P.pc = "idle" => P.inst = m.inst) /\ (m.inst # 0 => m.ph = "open")
View == <<ci, P, left, m>>
Generate == IF History /\ P.pc = "idle" /\ left.c = 0 THEN PrintT("SCEN " \o ToJson([c |-> ci, h |-> hist])) ELSE TRUE
====
