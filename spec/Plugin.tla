---- MODULE Plugin ----
(* The design of sudo_pair: what each sudo process does, one action per system
   call that others can observe or disturb, in an environment of peers,
   signals, faults and crashes.  Every action emits the events a recording of
   the real library would contain, and the contract (Contract.tla) watches in
   lockstep: m.bad must stay empty in every reachable state.

   With History = TRUE the environment's choices are recorded in hist, which
   makes every behaviour a distinct scenario; tools replay these on the real
   library (gates stop it at the same system call) and TLC judges the
   recording by the same contract (Trace.tla). *)
EXTENDS Contract, Cases, Json

CONSTANTS CaseIds,      \* which of Cases to explore
          MaxEnv,       \* how many things the environment does
          MaxFault,     \* how many of them are faults or crashes
          MaxSig,       \* how many are signals
          History,      \* record the environment's choices
          Gated,        \* the environment may also act while a process is between two system calls
          Bugs          \* seeded design errors, to see the contract object

VARIABLES ci,           \* the case
          X,            \* X[h]: the state of sudo process h
          K,            \* K[p]: the state of peer p
          L_,           \* what is left of the environment's budget
          calm,         \* everything was delivered and judged since the last step
          hist,         \* what the environment did
          m             \* the contract's monitor
vars == <<ci, X, K, L_, calm, hist, m>>

Case == Cases[ci]
Hs == DOMAIN X
Cap == 200000           \* bytes a peer that does not read can be sent before its sender blocks
Pk(a) == a              \* peers are numbered as in the case

Emit(q) == m' = FoldLeft(LAMBDA a, e : IF a.bad = {} THEN Step(a, e) ELSE a, m, q)
B(b) == b \in Bugs

X0 == [pc |-> "idle", plan |-> 1, conn |-> 0, eintr |-> FALSE, um |-> FALSE, sa |-> FALSE, ns |-> 0, fail |-> FALSE,
       rem |-> <<>>, ret |-> 0, lis |-> FALSE, flt |-> 0, ech |-> <<>>, ins |-> FALSE, occ |-> 0, rets |-> <<>>]
K0 == [h |-> 0, st |-> "none", inq |-> <<>>, wr |-> FALSE, rd |-> FALSE, dr |-> TRUE, q |-> <<>>, hup |-> FALSE, eof |-> FALSE]

Init == /\ ci \in CaseIds
        /\ X = [h \in 1..Len(Cases[ci].hosts) |-> X0]
        /\ K = [p \in 1..Len(Cases[ci].who) |-> K0]
        /\ L_ = [env |-> MaxEnv, flt |-> MaxFault, sig |-> MaxSig]
        /\ calm = TRUE
        /\ hist = <<>>
        /\ m = Start([hosts |-> Cases[ci].hosts, world |-> Cases[ci].world, ver |-> <<49>>], Cases[ci].focus)

F(h) == m.hs[h].f
W(p) == At(m.w, p)

----------------------------------------------------------------------------
\* where process h stands, as the system call it is about to make
Gate(h) == CASE X[h].pc = "umask1" -> <<"umask", 1>> [] X[h].pc = "bind" -> <<"bind", 1>> [] X[h].pc = "chown" -> <<"chown", 1>>
             [] X[h].pc = "chmod" -> <<"chmod", 1>> [] X[h].pc = "poll" -> <<"poll", 1>> [] X[h].pc = "accept" -> <<"accept", 1>>
             [] X[h].pc = "unlink" -> <<"unlink", IF F(h).stale THEN 2 ELSE 1>> [] X[h].pc = "umask2" -> <<"umask", 2>>
             [] X[h].pc = "send0" -> <<"send", 1>> [] X[h].pc = "recv" -> <<"recv", 1>> [] X[h].pc = "echo1" -> <<"send", 2>>
             [] X[h].pc = "echo2" -> <<"send", 3>> [] X[h].pc = "lsend" -> <<"send", 1 + X[h].occ>> [] OTHER -> <<"", 0>>
Queued(h) == {p \in DOMAIN K : K[p].h = h /\ K[p].st = "queued"}
First(h) == IF m.bad = {} THEN m.hs[h].q[1] ELSE CHOOSE p \in DOMAIN K : K[p].h = h /\ K[p].st \in {"queued", "qgone"}  \* the monitor stops at its first objection
Gone(p) == K[p].st = "gone" \/ K[p].rd
Space(p) == IF K[p].dr THEN Cap ELSE Cap - RLen(K[p].q)
Blocked(h) ==
  /\ X[h].flt = 0 /\ ~X[h].eintr
  /\ CASE X[h].pc = "poll" -> ~\E p \in DOMAIN K : K[p].h = h /\ K[p].st \in {"queued", "qgone"}
       [] X[h].pc = "recv" -> LET k == K[X[h].conn] IN k.inq = <<>> /\ ~k.wr /\ k.st # "gone"
       [] X[h].pc \in {"send0", "lsend"} -> ~Gone(X[h].conn) /\ Space(X[h].conn) = 0 /\ X[h].rem # <<>>
       [] OTHER -> FALSE
AtRest(h) == X[h].pc \in {"idle", "dead"} \/ Blocked(h)
\* the environment acts when everybody is at rest or stopped in front of a system call
Reachable_(h) == AtRest(h) \/ (Gated /\ Gate(h)[2] # 0 /\ ~X[h].ins)
EnvOk == calm /\ m.bad = {} /\ \A h \in Hs : Reachable_(h)
Gates == {<<h, Gate(h)[1], Gate(h)[2]>> : h \in {g \in Hs : ~AtRest(g)}}
Record(op) == hist' = IF History THEN Append(hist, [op |-> op, at |-> Gates]) ELSE hist
St(h) == IF X[h].pc = "dead" THEN "dead" ELSE IF X[h].pc = "idle" THEN "idle" ELSE IF Blocked(h) THEN "blk" ELSE "gate"
Nr(h) == IF ~Blocked(h) THEN "" ELSE IF X[h].pc = "poll" THEN "poll" ELSE IF X[h].pc = "recv" THEN "recv" ELSE "send"

----------------------------------------------------------------------------
\* the process
Set(h, r) == X' = [X EXCEPT ![h] = [r EXCEPT !.ins = FALSE]]
Rets(h, r) == IF History THEN Append(X[h].rets, r) ELSE <<>>
SetE(h, r) == X' = [X EXCEPT ![h] = r]
Go(h, pc) == Set(h, [X[h] EXCEPT !.pc = pc, !.flt = 0, !.eintr = FALSE])
Busy == calm' = FALSE /\ UNCHANGED <<ci, L_, hist>>
SameK == K' = K
ErrText == L_LF \o L_Tag \o <<110, 111, 10>>            \* an error message
Fs(h, k, u, g, mo) == [e |-> "fs", h |-> h, p |-> F(h).path, k |-> k, u |-> u, g |-> g, m |-> mo]
Flt(h, n) == [e |-> "fault", h |-> h, s |-> Gate(h)[1], w |-> "err", n |-> n]
Pf(h, lv, d) == [e |-> "printf", h |-> h, lv |-> lv, d |-> d]
Ret(h, c, r) == [e |-> "ret", h |-> h, c |-> c, r |-> r, um |-> ~X[h].um, sa |-> ~X[h].sa, sg |-> X[h].ns]
\* drops the connection of h, if any, and whatever still waits in its backlog
Hangup(h) == [p \in DOMAIN K |-> IF X[h].conn = p \/ (K[p].h = h /\ K[p].st \in {"queued", "qgone"}) THEN [K[p] EXCEPT !.hup = TRUE] ELSE K[p]]
Return(h, c, r, k) == /\ Emit((IF r \in {0, -1} THEN <<Pf(h, 3, ErrText)>> ELSE <<>>) \o <<Ret(h, c, r)>>)
                      /\ Set(h, [X[h] EXCEPT !.pc = "idle", !.fail = FALSE, !.rem = <<>>, !.flt = 0, !.eintr = FALSE, !.ns = 0, !.occ = 0,
                                             !.conn = IF r = -1 THEN 0 ELSE @, !.rets = Rets(h, r)])
                      /\ K' = k

Decide(h) == /\ X[h].pc = "decide" /\ Busy
             /\ LET d == F(h).disp IN
                IF d \in {"api", "facts", "ug"} /\ ~B(d \o "ok") THEN (IF d = "api" THEN
                       /\ Emit(<<Pf(h, 3, L_LF \o L_Tag \o L_V19 \o L_LF \o F(h).ver \o L_LF), Ret(h, "open", -1)>>) /\ Set(h, [X[h] EXCEPT !.pc = "idle", !.ns = 0, !.rets = Rets(h, -1)]) /\ SameK
                     ELSE IF d = "facts" THEN
                       /\ Emit(<<Pf(h, 3, L_LF \o L_Tag \o (CHOOSE k \in F(h).bad : TRUE) \o L_LF), Ret(h, "open", -1)>>) /\ Set(h, [X[h] EXCEPT !.pc = "idle", !.ns = 0, !.rets = Rets(h, -1)]) /\ SameK
                     ELSE Return(h, "open", -1, K))
                ELSE IF d \in {"query", "exempt"} /\ ~B("pairall") THEN Return(h, "open", 1, K)
                ELSE Go(h, "prompt") /\ SameK /\ UNCHANGED m
Prompt(h) == /\ X[h].pc = "prompt" /\ Busy /\ SameK
             /\ Go(h, "dir")
             /\ IF B("noprompt") THEN UNCHANGED m
                ELSE IF F(h).tty THEN Emit(<<[e |-> "tty", h |-> h, d |-> F(h).up]>>)
                ELSE Emit(<<Pf(h, 3, F(h).up)>>)
\* the socket directory and what is at the path already
Dir(h) == /\ X[h].pc = "dir" /\ Busy /\ SameK
          /\ IF F(h).disp = "stuck" \/ (F(h).disp = "dir" /\ ~B("nodir")) \/ (F(h).disp = "occ" /\ ~B("occ"))
             THEN Set(h, [X[h] EXCEPT !.pc = "ret", !.fail = TRUE]) /\ UNCHANGED m
             ELSE /\ Go(h, "umask1")
                  /\ IF W(F(h).path).k = "sock" \/ (B("occ") /\ W(F(h).path).k # "none") THEN Emit(<<Fs(h, "none", <<48>>, <<48>>, 0)>>) ELSE UNCHANGED m
Umask1(h) == /\ X[h].pc = "umask1" /\ Busy /\ SameK /\ UNCHANGED m
             /\ Set(h, [X[h] EXCEPT !.pc = "bind", !.um = TRUE, !.flt = 0, !.eintr = FALSE])
Bind(h) == /\ X[h].pc = "bind" /\ Busy /\ SameK
           /\ IF X[h].flt # 0 THEN Emit(<<Flt(h, X[h].flt)>>) /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.fail = TRUE, !.flt = 0])
              ELSE IF W(F(h).path).k # "none" THEN UNCHANGED m /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.fail = TRUE])
              ELSE /\ Emit(<<Fs(h, "sock", <<48>>, <<48>>, IF B("nomask") THEN 511 ELSE 0)>>)
                   /\ Set(h, [X[h] EXCEPT !.pc = IF B("chmodfirst") THEN "chmod" ELSE "chown", !.lis = TRUE, !.eintr = FALSE])
Own(h) == LET a == F(h).auth IN IF a.by = "user" THEN [u |-> a.id, g |-> W(F(h).path).g, m |-> 128]
                                ELSE [u |-> <<48>>, g |-> a.id, m |-> 16]
NextOwn(h, pc) == IF pc = "chown" THEN (IF B("chmodfirst") THEN "poll" ELSE "chmod") ELSE (IF B("chmodfirst") THEN "chown" ELSE "poll")
Chown(h) == /\ X[h].pc = "chown" /\ Busy /\ SameK
            /\ IF X[h].flt # 0 THEN Emit(<<Flt(h, X[h].flt)>>) /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.fail = TRUE, !.flt = 0])
               ELSE LET o == W(F(h).path) n == Own(h) IN
                    /\ IF o.k = "sock" /\ (o.u # n.u \/ o.g # n.g) THEN Emit(<<Fs(h, "sock", n.u, n.g, o.m)>>) ELSE UNCHANGED m
                    /\ Go(h, NextOwn(h, "chown"))
Chmod(h) == /\ X[h].pc = "chmod" /\ Busy /\ SameK
            /\ IF X[h].flt # 0 THEN Emit(<<Flt(h, X[h].flt)>>) /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.fail = TRUE, !.flt = 0])
               ELSE LET o == W(F(h).path) n == Own(h) IN
                    /\ IF o.k = "sock" /\ o.m # n.m THEN Emit(<<Fs(h, "sock", o.u, o.g, IF B("worldw") THEN n.m + 2 ELSE n.m)>>) ELSE UNCHANGED m
                    /\ Go(h, NextOwn(h, "chmod"))
Poll(h) == /\ X[h].pc = "poll" /\ Busy /\ SameK /\ ~Blocked(h)
           /\ IF X[h].flt # 0 THEN Emit(<<Flt(h, X[h].flt)>>) /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.fail = TRUE, !.flt = 0])
              ELSE IF X[h].eintr /\ ~B("restart") /\ Queued(h) = {} THEN UNCHANGED m /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.fail = TRUE, !.eintr = FALSE])
              ELSE IF X[h].eintr THEN UNCHANGED m /\ Set(h, [X[h] EXCEPT !.eintr = FALSE])
              ELSE UNCHANGED m /\ Go(h, "accept")
Accept(h) == /\ X[h].pc = "accept" /\ Busy
             /\ IF X[h].flt # 0 THEN Emit(<<Flt(h, X[h].flt)>>) /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.fail = TRUE, !.flt = 0]) /\ SameK
                ELSE LET p == IF B("lastpeer") THEN m.hs[h].q[Len(m.hs[h].q)] ELSE First(h) IN
                     /\ K' = [K EXCEPT ![p].st = IF @ = "qgone" THEN "gone" ELSE "open"]
                     /\ UNCHANGED m
                     /\ Set(h, [X[h] EXCEPT !.pc = "unlink", !.conn = p, !.eintr = FALSE])
\* the listener is closed (so whoever else waits is let go), then the path removed
Unlink(h) == /\ X[h].pc = "unlink" /\ Busy
             /\ K' = [p \in DOMAIN K |-> IF K[p].h = h /\ K[p].st \in {"queued", "qgone"} THEN [K[p] EXCEPT !.hup = TRUE, !.st = IF @ = "qgone" THEN "gone" ELSE "done"] ELSE K[p]]
             /\ LET gone == W(F(h).path).k # "sock" \/ (B("leaksock") /\ X[h].fail)
                    x == [X[h] EXCEPT !.pc = "umask2", !.flt = 0, !.eintr = FALSE, !.lis = FALSE] IN
                IF X[h].flt # 0 THEN Set(h, x) /\ (IF gone THEN UNCHANGED m ELSE Emit(<<Flt(h, X[h].flt)>>))
                ELSE Set(h, x) /\ (IF gone THEN UNCHANGED m ELSE Emit(<<Fs(h, "none", <<48>>, <<48>>, 0)>>))
Umask2(h) == /\ X[h].pc = "umask2" /\ Busy /\ SameK /\ UNCHANGED m
             /\ Set(h, [X[h] EXCEPT !.pc = IF X[h].fail THEN "ret" ELSE "send0", !.um = B("umleak") /\ X[h].fail,
                                    !.rem = IF X[h].fail THEN <<>> ELSE F(h).pp, !.flt = 0, !.eintr = FALSE])
RECURSIVE RTake(_, _), RDrop(_, _)
RTake(r, n) == IF n = 0 \/ r = <<>> THEN <<>> ELSE IF r[1][2] <= n THEN <<r[1]>> \o RTake(Tail(r), n - r[1][2]) ELSE << <<r[1][1], n>> >>
RDrop(r, n) == IF n = 0 \/ r = <<>> THEN r ELSE IF r[1][2] <= n THEN RDrop(Tail(r), n - r[1][2]) ELSE << <<r[1][1], r[1][2] - n>> >> \o Tail(r)
\* one write of what is left; done: where to go when nothing is left, lost: when the peer is gone
Write(h, done, lost) ==
  LET p == X[h].conn
      n == Min2(Space(p), RLen(X[h].rem)) IN
  IF X[h].rem = <<>> THEN UNCHANGED <<K, m>> /\ Set(h, [X[h] EXCEPT !.pc = done, !.flt = 0, !.eintr = FALSE])
  ELSE IF X[h].flt = 4 THEN Emit(<<Flt(h, 4)>>) /\ SameK /\ Set(h, [X[h] EXCEPT !.flt = 0, !.occ = @ + 1])   \* interrupted: again
  ELSE IF X[h].flt # 0 THEN Emit(<<Flt(h, X[h].flt)>>) /\ SameK /\ Set(h, [X[h] EXCEPT !.pc = lost, !.fail = TRUE, !.flt = 0, !.eintr = FALSE])
  ELSE IF Gone(p) THEN UNCHANGED <<K, m>> /\ Set(h, [X[h] EXCEPT !.pc = lost, !.fail = TRUE, !.eintr = FALSE])
  ELSE IF n = 0 THEN UNCHANGED <<K, m>> /\ Set(h, [X[h] EXCEPT !.eintr = FALSE])
  ELSE /\ K' = [K EXCEPT ![p].q = RCat(@, RTake(X[h].rem, n))] /\ UNCHANGED m
       /\ LET left == IF B("onewrite") THEN <<>> ELSE RDrop(X[h].rem, n) IN
          Set(h, [X[h] EXCEPT !.rem = left, !.pc = IF left = <<>> THEN done ELSE @, !.eintr = FALSE, !.occ = @ + 1])
Send0(h) == X[h].pc = "send0" /\ Busy /\ ~Blocked(h) /\ Write(h, "recv", "ret")
Recv(h) == /\ X[h].pc = "recv" /\ Busy /\ ~Blocked(h)
           /\ LET p == X[h].conn
                  k == K[p]
                  no == [X[h] EXCEPT !.pc = "ret", !.fail = TRUE, !.flt = 0, !.eintr = FALSE] IN
              IF X[h].flt # 0 THEN Emit(<<Flt(h, X[h].flt)>>) /\ SameK /\ Set(h, no)
              ELSE IF X[h].eintr /\ ~B("restart") THEN UNCHANGED <<m, K>> /\ Set(h, no)
              ELSE IF k.inq = <<>> /\ ~k.wr /\ k.st # "gone" THEN UNCHANGED <<m, K>> /\ Set(h, [X[h] EXCEPT !.eintr = FALSE])
              \* the kernel reports a reset rather than the data when the peer left without reading everything
              ELSE IF k.inq = <<>> /\ k.st = "gone" /\ k.q # <<>> THEN UNCHANGED <<m, K>> /\ Set(h, no)
              ELSE LET b == IF k.inq = <<>> THEN (IF B("eofyes") THEN 121 ELSE 110) ELSE k.inq[1] IN
                   /\ K' = [K EXCEPT ![p].inq = IF @ = <<>> THEN @ ELSE Tail(@)]
                   /\ UNCHANGED m
                   /\ Set(h, [X[h] EXCEPT !.pc = "echo1", !.ech = <<b>>, !.rem = << <<b, 1>> >>, !.eintr = FALSE])
\* the echo is a courtesy: failures are ignored
Echo1(h) == X[h].pc = "echo1" /\ Busy /\ ~Blocked(h) /\ Write(h, "echo1b", "echo1b")
Echo1b(h) == X[h].pc = "echo1b" /\ Busy /\ UNCHANGED <<K, m>> /\ Set(h, [X[h] EXCEPT !.pc = "echo2", !.fail = FALSE, !.rem = << <<10, 1>> >>])
Echo2(h) == X[h].pc = "echo2" /\ Busy /\ ~Blocked(h) /\ Write(h, "judge", "judge")
Judge(h) == /\ X[h].pc = "judge" /\ Busy /\ UNCHANGED <<K, m>>
            /\ Set(h, [X[h] EXCEPT !.pc = "ret", !.fail = ~(B("anyyes") \/ X[h].ech[1] \in {89, 121} \/ (B("eofyes") /\ X[h].ech[1] = 121))])
RetOpen_(h) == /\ X[h].pc = "ret" /\ Busy
               /\ IF X[h].fail THEN Return(h, "open", IF B("unload") THEN 0 ELSE -1, IF B("keepconn") THEN K ELSE Hangup(h))
                  ELSE Return(h, "open", 1, K)

LogIn(h) == /\ X[h].pc = "log" /\ Busy
            /\ LET H == m.hs[h] ph == H.ph IN
               IF ph \in {"none", "query", "refused", "closed"}
               THEN LET r == IF B("lateok") THEN 1 ELSE 0 IN Emit(<<Ret(h, "log", r)>>) /\ SameK /\ Set(h, [X[h] EXCEPT !.pc = "idle", !.ns = 0, !.rets = Rets(h, r)])
               ELSE IF ph = "exempt" \/ H.s = "ttyin" \/ (H.s = "stdin" /\ B("stdinok")) THEN Return(h, "log", 1, K)
               ELSE IF H.s = "stdin" THEN Return(h, "log", 0, K)
               ELSE /\ Set(h, [X[h] EXCEPT !.pc = "lsend", !.rem = IF B("dropstderr") /\ H.s = "stderr" THEN <<>> ELSE H.d, !.occ = 0]) /\ SameK /\ UNCHANGED m
LSend(h) == X[h].pc = "lsend" /\ Busy /\ ~Blocked(h) /\ Write(h, "lret", "lret")
LRet(h) == X[h].pc = "lret" /\ Busy /\ Return(h, "log", IF X[h].fail /\ ~B("lostok") THEN 0 ELSE 1, K)
CloseIn(h) == /\ X[h].pc = "close" /\ Busy
              /\ Emit(<<Ret(h, "close", 99)>>)
              /\ K' = IF B("noclose") THEN K ELSE Hangup(h)
              /\ Set(h, [X[h] EXCEPT !.pc = "idle", !.conn = 0, !.ns = 0, !.rets = Rets(h, 99)])

Process(h) == \/ Decide(h) \/ Prompt(h) \/ Dir(h) \/ Umask1(h) \/ Bind(h) \/ Chown(h) \/ Chmod(h) \/ Poll(h) \/ Accept(h) \/ Unlink(h)
              \/ Umask2(h) \/ Send0(h) \/ Recv(h) \/ Echo1(h) \/ Echo1b(h) \/ Echo2(h) \/ Judge(h) \/ RetOpen_(h)
              \/ LogIn(h) \/ LSend(h) \/ LRet(h) \/ CloseIn(h)

----------------------------------------------------------------------------
\* peers get what was sent to them, then everything is judged
Pending(p) == K[p].st \in {"open", "queued", "done"} /\ ~K[p].eof /\ ((K[p].dr /\ K[p].q # <<>>) \/ (K[p].dr /\ K[p].hup))
Deliver == /\ ~calm
           /\ \E p \in DOMAIN K : /\ Pending(p) /\ \A r \in DOMAIN K : Pending(r) => p <= r
                                  /\ Emit(<<[e |-> "recv", p |-> p, d |-> K[p].q, eof |-> K[p].hup]>>)
                                  /\ K' = [K EXCEPT ![p].q = <<>>, ![p].eof = K[p].hup]
           /\ UNCHANGED <<ci, X, L_, calm, hist>>
Judged == /\ ~calm /\ ~\E p \in DOMAIN K : Pending(p)
          /\ \A h \in Hs : Reachable_(h)
          /\ calm' = TRUE
          /\ Emit(<<[e |-> "q", st |-> [h \in Hs |-> St(h)], nr |-> [h \in Hs |-> Nr(h)]]>>)
          /\ X' = [h \in Hs |-> [X[h] EXCEPT !.ins = Blocked(h)]]      \* inside the system call it is blocked in
          /\ UNCHANGED <<ci, K, L_, hist>>

----------------------------------------------------------------------------
\* the environment
Budget(r) == L_.env > 0 /\ (r = "flt" => L_.flt > 0) /\ (r = "sig" => L_.sig > 0)
Spend(r) == L_' = [L_ EXCEPT !.env = @ - 1, !.flt = IF r = "flt" THEN @ - 1 ELSE @, !.sig = IF r = "sig" THEN @ - 1 ELSE @]

\* sudo makes its next call
Call(h) == /\ EnvOk /\ X[h].pc = "idle" /\ X[h].plan <= Len(Case.plan[h])
           /\ LET c == Case.plan[h][X[h].plan] IN
              /\ Emit(<<IF c.c = "log" THEN [e |-> "call", h |-> h, c |-> "log", m |-> c.s, d |-> c.d]
                        ELSE IF c.c = "winsize" THEN [e |-> "call", h |-> h, c |-> "winsize", l |-> c.l, w |-> c.w]
                        ELSE [e |-> "call", h |-> h, c |-> c.c]>>)
              /\ Set(h, [X[h] EXCEPT !.pc = IF c.c = "open" THEN "decide" ELSE IF c.c = "close" THEN "close" ELSE "log", !.plan = @ + 1, !.ns = 0])
              /\ Record([k |-> "call", h |-> h, c |-> c])
           /\ calm' = FALSE /\ UNCHANGED <<ci, K, L_>>

Perm(o, u, g) == \/ u = L_D0
                 \/ IF o.u = u THEN WBit(o.m, 128) ELSE IF o.g = g THEN WBit(o.m, 16) ELSE WBit(o.m, 2)
Connect(p) == /\ EnvOk /\ K[p].st = "none" /\ Budget("") /\ Spend("")
              /\ \A r \in DOMAIN K : r < p /\ Case.who[r] = Case.who[p] => K[r].st # "none"
              /\ LET w == Case.who[p]
                     h == w.h
                     o == W(F(h).path)
                     err == IF F(h).path = <<>> \/ o.k = "none" THEN "ENOENT" ELSE IF o.k # "sock" THEN "REFUSED"
                            ELSE IF ~Perm(o, w.u, w.g) THEN "EACCES" ELSE IF ~X[h].lis THEN "REFUSED" ELSE "" IN
                 /\ F(h).path # <<>>
                 /\ Emit(<<[e |-> "connect", p |-> p, n |-> F(h).path, u |-> w.u, g |-> w.g, ok |-> err = "", err |-> err]>>)
                 /\ K' = IF err = "" THEN [K EXCEPT ![p].st = "queued", ![p].h = h] ELSE [K EXCEPT ![p].st = "shut"]
                 /\ Record([k |-> "connect", p |-> p, n |-> F(h).path, u |-> w.u, g |-> w.g])
              /\ calm' = FALSE /\ UNCHANGED <<ci, X>>
Alive(p) == K[p].st \in {"queued", "open", "done"}
Answer(p) == /\ EnvOk /\ Alive(p) /\ ~K[p].wr /\ Len(K[p].inq) < 2 /\ Budget("") /\ Spend("")
             /\ \E b \in Case.bytes :
                  /\ Emit(<<[e |-> "send", p |-> p, d |-> << <<b, 1>> >>, n |-> IF K[p].hup THEN -1 ELSE 1]>>)
                  /\ K' = IF K[p].hup THEN K ELSE [K EXCEPT ![p].inq = Append(@, b)]
                  /\ Record([k |-> "send", p |-> p, b |-> b])
             /\ calm' = FALSE /\ UNCHANGED <<ci, X>>
Leave(p) == /\ EnvOk /\ Alive(p) /\ Budget("") /\ Spend("")
            /\ \E how \in {"full", "wr", "rd"} :
                 /\ (how = "wr" => ~K[p].wr) /\ (how = "rd" => ~K[p].rd)
                 /\ Emit(<<[e |-> "pclose", p |-> p, how |-> how]>>)
                 /\ K' = [K EXCEPT ![p].st = IF how # "full" THEN @ ELSE IF @ = "queued" THEN "qgone" ELSE IF @ = "done" THEN "shut" ELSE "gone",
                                   ![p].wr = @ \/ how = "wr", ![p].rd = @ \/ how = "rd"]
                 /\ Record([k |-> "close", p |-> p, how |-> how])
            /\ calm' = FALSE /\ UNCHANGED <<ci, X>>
\* a peer that stops reading, and starts again
Drain(p) == /\ EnvOk /\ Case.slow /\ Alive(p) /\ Budget("") /\ Spend("")
            /\ Emit(<<[e |-> "drain", p |-> p, on |-> ~K[p].dr]>>)
            /\ K' = [K EXCEPT ![p].dr = ~@]
            /\ Record([k |-> "drain", p |-> p, on |-> ~K[p].dr])
            /\ calm' = FALSE /\ UNCHANGED <<ci, X>>
Signal(h) == /\ EnvOk /\ X[h].pc \notin {"dead", "idle"} /\ Budget("sig") /\ Spend("sig")
             /\ Emit(<<[e |-> "sig", h |-> h, s |-> "INT", at |-> St(h)]>>)
             /\ SetE(h, [X[h] EXCEPT !.eintr = Blocked(h), !.ns = @ + 1])
             /\ Record([k |-> "sig", h |-> h])
             /\ calm' = FALSE /\ UNCHANGED <<ci, K>>
Faultable == {"bind", "chown", "chmod", "poll", "accept", "unlink", "send0", "recv", "echo1", "echo2", "lsend"}
Fault(h) == /\ EnvOk /\ X[h].pc \in Faultable /\ ~Blocked(h) /\ X[h].flt = 0 /\ Budget("flt") /\ Spend("flt")
            /\ \E n \in (IF X[h].pc \in {"send0", "lsend"} THEN {4, 5} ELSE IF X[h].pc = "poll" THEN {4} ELSE {5}) :
                 /\ SetE(h, [X[h] EXCEPT !.flt = n])
                 /\ Record([k |-> "fault", h |-> h, s |-> Gate(h)[1], o |-> Gate(h)[2], n |-> n])
            /\ UNCHANGED <<ci, K, m, calm>>
Crash(h) == /\ EnvOk /\ X[h].pc # "idle" /\ X[h].pc # "dead" /\ ~Blocked(h) /\ Gate(h)[2] # 0 /\ X[h].flt = 0 /\ Budget("flt") /\ Spend("flt")
            /\ Emit(<<[e |-> "dead", h |-> h, how |-> "kill", sig |-> 9]>>)
            /\ SetE(h, [X[h] EXCEPT !.pc = "dead", !.lis = FALSE])
            /\ K' = Hangup(h)
            /\ Record([k |-> "kill", h |-> h, s |-> Gate(h)[1], o |-> Gate(h)[2]])
            /\ calm' = FALSE /\ UNCHANGED ci

Env == \/ \E h \in Hs : Call(h) \/ Signal(h) \/ Fault(h) \/ Crash(h)
       \/ \E p \in DOMAIN K : Connect(p) \/ Answer(p) \/ Leave(p) \/ Drain(p)
Done == calm /\ \A h \in Hs : X[h].pc = "dead" \/ Blocked(h) \/ (X[h].pc = "idle" /\ X[h].plan > Len(Case.plan[h]))
Next == (\E h \in Hs : Process(h)) \/ Deliver \/ Judged \/ Env
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars((\E h \in Hs : Process(h)) \/ Deliver \/ Judged)

----------------------------------------------------------------------------
Holds == IF m.bad = {} THEN TRUE ELSE PrintT("OBJECTION " \o ToString(m.bad)) /\ FALSE
\* C10, C06: every callback comes back unless it waits for the pair, and an interrupted wait always does
\* (the bound is a constant because TLC wants it so; h \in Hs says which are there)
Out(h) == h \in Hs /\ X[h].pc \notin {"idle", "dead"}
Returns == \A h \in 1..2 : Out(h) ~> (~Out(h) \/ Blocked(h))
Interrupted == \A h \in 1..2 : (Out(h) /\ X[h].eintr /\ X[h].pc \in {"poll", "recv"}) ~> ~Out(h)
\* C06: who got through to a process that is done with it learns that
Left(p) == p \in DOMAIN K /\ K[p].st \in {"queued", "open", "done"} /\ K[p].dr /\ ~K[p].eof
           /\ LET x == X[K[p].h] IN x.pc = "dead" \/ (x.pc = "idle" /\ x.conn # p)
LetGo == \A p \in 1..2 : Left(p) ~> ~Left(p)
View == <<ci, X, K, L_, calm, m>>
\* scenario generation
Generate == IF History /\ Done /\ (L_.env = 0 \/ \A h \in Hs : ~Blocked(h)) THEN PrintT("SCEN " \o ToJson([c |-> ci, h |-> hist, r |-> [h \in Hs |-> X[h].rets]])) ELSE TRUE
====
