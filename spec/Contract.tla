---- MODULE Contract ----
(* The contract of sudo_pair as a monitor over observable events.

   m is the monitor state; Step(m, e) consumes one event.  m.bad collects
   <<property, reason>> pairs: the contract holds of a history iff bad stays
   empty.  The same operator judges the histories of the design model
   (Plugin.tla, all of them, by model checking) and the histories recorded
   from the real shared library (Trace.tla).

   Events (e.e):
     call h c ..     sudo enters callback c          ret h c r um sa sg   it returns
     fs h p k u g m  the plugin changed the filesystem (k = "none": removed)
     env p k u g m   somebody else did
     printf h lv d   text through sudo's printf      tty h d   content of the user's terminal
     connect p n u g ok err | send p d n | recv p d eof | pclose p how | drain p on     peers
     sig h s at      signal sent to sudo             fault h s w n   a system call of class s disturbed
     q st nr         every process is idle, paused or asleep in a system call
     dead, spin, runaway, escape                     a host died, loops, or tried to leave its sandbox *)
EXTENDS Session

\* a set of <<property, reason>>
L(labels, why) == {<<l, why>> : l \in labels}
Bad(m, labels, why) == [m EXCEPT !.bad = @ \cup L(labels \cup m.focus, why)]
\* checks is a set of <<violated, labels, reason>>
Chk(m, checks) == [m EXCEPT !.bad = @ \cup UNION {L(x[2] \cup m.focus, x[3]) : x \in {y \in checks : y[1]}}]

NoFacts == [disp |-> "none", bad |-> {}, path |-> <<>>, auth |-> [by |-> "none", id |-> <<>>], expl |-> FALSE,
            stale |-> FALSE, ver |-> <<>>, up |-> <<>>, up2 |-> <<>>, pp |-> <<>>, pp2 |-> <<>>, tty |-> FALSE]
Host0 == [ph |-> "none", call |-> "", s |-> "", d |-> <<>>, f |-> NoFacts,
          nsig |-> 0, sigw |-> 0, sigany |-> FALSE, flt |-> {}, hard |-> FALSE, msgs |-> <<>>, tty |-> <<>>,
          envch |-> FALSE, q |-> <<>>, bases |-> {}, out |-> <<>>, frozen |-> FALSE, lossy |-> FALSE, must0 |-> FALSE,
          over |-> FALSE, cf |-> FALSE, st |-> "idle", nr |-> "", sawsock |-> FALSE, was |-> FALSE]
Peer0 == [h |-> 0, tx |-> -1, cl |-> {}, rx |-> <<>>, eof |-> FALSE, dr |-> TRUE]

WorldOf(objs) == FoldLeft(LAMBDA w, o : [p \in DOMAIN w \cup {o.p} |-> IF p = o.p THEN [k |-> o.k, u |-> o.u, g |-> o.g, m |-> o.m, d |-> o.d] ELSE w[p]],
                          <<>>, objs)
\* tr: a trace record; focus: properties the history as a whole is about
Start(tr, focus) == [cs |-> [h \in 1..Len(tr.hosts) |-> Read(tr.hosts[h])], w |-> WorldOf(tr.world), hs |-> [h \in 1..Len(tr.hosts) |-> Host0],
                     ps |-> [p \in 1..16 |-> Peer0], bad |-> {}, focus |-> focus, ver |-> tr.ver]

----------------------------------------------------------------------------
DispLabel(d) == CASE d = "pair" -> "C01" [] d = "stuck" -> "C01" [] d = "exempt" -> "C02" [] d = "ug" -> "C04"
                  [] d \in {"dir", "occ"} -> "C05" [] d = "facts" -> "C15" [] d = "api" -> "C16" [] OTHER -> "C13"
CallLabel(H) == IF H.call = "open" THEN {DispLabel(H.f.disp)}
                ELSE IF H.call \in {"log", "winsize"} THEN (IF H.s = "stdin" \/ H.s = "ttyin" THEN {"C09"} ELSE {"C08"})
                ELSE {"C13"}
Said(H) == FoldLeft(LAMBDA a, x : a \o x[2], <<>>, H.msgs)
SaidErr(H) == FoldLeft(LAMBDA a, x : IF x[1] = 3 THEN a \o x[2] ELSE a, <<>>, H.msgs)
SaidInfo(H) == FoldLeft(LAMBDA a, x : IF x[1] = 4 THEN a \o x[2] ELSE a, <<>>, H.msgs)
HasNul(s) == IndexOf(s, 0) # 0
Lost(P) == P.cl \cap {"full", "rd"} # {}

\* C17: acceptable texts of the invoking user's prompt; a template that cannot be read is replaced by the built-in one
Ups(H) == {H.f.up} \cup (IF H.flt \cap {"open", "read", "stat"} # {} \/ H.envch THEN {H.f.up2} ELSE {})
Pps(H) == {H.f.pp} \cup (IF H.flt \cap {"open", "read", "stat"} # {} \/ H.envch THEN {H.f.pp2} ELSE {})
TtyDisturbed(H) == H.flt \cap {"open", "write", "stat", "ioctl", "fcntl", "close", "mem", "access", "other"} # {} \/ H.envch
Prompted(m, h) == LET H == m.hs[h] said == Said(H) IN
  \/ H.f.tty /\ H.tty \in Ups(H)
  \/ (~H.f.tty \/ TtyDisturbed(H)) /\ \/ m.cs[h].pf # "ok"
                                      \/ \E u \in Ups(H) : HasNul(u) \/ Starts(said, u)
\* the text of an error: prefixed lines, set off from what precedes them
IsErr(t) == Len(t) > Len(L_Tag) + 2 /\ t[1] = 10 /\ t[Len(t)] = 10 /\ HasAt(t, L_Tag, 2)
\* after the prompt, if that went through sudo's printf
ErrAfter(m, h) == LET H == m.hs[h] t == SaidErr(H) IN
  \/ m.cs[h].pf # "ok"
  \/ H.msgs = <<>> /\ H.flt \cap {"stat", "other", "mem"} # {}      \* a failure inside a library may surface as a panic
  \/ IsErr(t)
  \/ H.f.disp \in {"pair", "stuck", "dir", "occ"} /\ \E u \in Ups(H) : HasNul(u) \/ (Starts(t, u) /\ IsErr(Drop(t, Len(u))))

\* the streams the pair may have received while or after the session is opened
Echo(H, P) == (IF P.tx >= 0 THEN {<<>>, <<P.tx>>, <<P.tx, 10>>} ELSE {<<>>, <<110>>, <<110, 10>>})
              \cup (IF "send" \in H.flt THEN {<<10>>} ELSE {})
OpenStreams(H, P) == {RCat(b, Rle(x)) : b \in Pps(H), x \in Echo(H, P)}
SomePrefix(r, S) == \E s \in S : RPrefix(r, s)

----------------------------------------------------------------------------
\* call
OnCall(m, e) ==
  LET H == m.hs[e.h]
      common == [H EXCEPT !.call = e.c, !.s = "", !.d = <<>>, !.nsig = 0, !.sigw = 0, !.sigany = FALSE, !.flt = {}, !.hard = FALSE,
                          !.msgs = <<>>, !.envch = FALSE, !.lossy = FALSE, !.must0 = FALSE, !.st = "run"] IN
  IF e.c = "open" THEN
    LET c == m.cs[e.h] IN
    [m EXCEPT !.hs[e.h] = [Host0 EXCEPT !.call = "open", !.ph = "open", !.f = Facts(c, m.w), !.st = "run", !.tty = H.tty]]
  ELSE IF e.c = "log" THEN [m EXCEPT !.hs[e.h] = [common EXCEPT !.s = e.m, !.d = RNorm(e.d)]]
  ELSE IF e.c = "winsize" THEN
    [m EXCEPT !.hs[e.h] = [common EXCEPT !.s = "winsize", !.d = Rle(L_Resize \o e.l \o <<59>> \o e.w \o <<116>>)]]
  ELSE [m EXCEPT !.hs[e.h] = common]

\* the plugin changed the filesystem
OnFs(m, e) ==
  LET H == m.hs[e.h]
      own == H.call = "open" /\ H.f.disp = "pair" /\ e.p = H.f.path
      m1 == [m EXCEPT !.w = [p \in DOMAIN m.w \cup {e.p} |->
                               IF p = e.p THEN [k |-> e.k, u |-> e.u, g |-> e.g, m |-> e.m, d |-> <<>>] ELSE m.w[p]],
                      !.hs[e.h].sawsock = @ \/ e.k = "sock"] IN
  IF own THEN
    IF e.k = "none" THEN m1
    ELSE IF e.k = "sock" THEN Chk(m1, {<<~GrantsOk(H.f.auth, e.u, e.g, e.m), {"C03"}, "socket grants more than the authority">>})
    ELSE Bad(m1, {"C05"}, "something other than a socket at the socket path")
  ELSE IF H.call = "open" THEN
    IF H.f.disp \in {"pair", "stuck"} THEN Bad(m1, {"C05"}, "touched another path")
    ELSE Bad(m1, {DispLabel(H.f.disp)}, "touched the filesystem though " \o H.f.disp)
  ELSE Bad(m1, {"C06"}, "touched the filesystem in " \o H.call)

OnEnv(m, e) == [m EXCEPT
   !.w = [p \in DOMAIN m.w \cup {e.p} |-> IF p = e.p THEN [k |-> e.k, u |-> e.u, g |-> e.g, m |-> e.m, d |-> <<>>] ELSE m.w[p]],
   !.hs = [h \in DOMAIN m.hs |-> IF m.hs[h].call = "open" THEN [m.hs[h] EXCEPT !.envch = TRUE] ELSE m.hs[h]]]

OnTty(m, e) ==
  LET H == m.hs[e.h]
      m1 == [m EXCEPT !.hs[e.h].tty = e.d] IN
  IF H.call # "open" THEN Bad(m1, {"C17"}, "wrote to the terminal outside the opening")
  ELSE Chk(m1, {<<H.f.disp \in {"exempt", "ug", "api", "facts", "query"}, {DispLabel(H.f.disp)}, "prompted the user though " \o H.f.disp>>,
                <<H.f.disp \in {"pair", "stuck", "dir", "occ"} /\ ~\E u \in Ups(H) : Starts(u, e.d), {"C17"}, "wrong prompt on the terminal">>})

OnPrintf(m, e) ==
  LET m1 == [m EXCEPT !.hs[e.h].msgs = Append(@, <<e.lv, e.d>>)] IN
  Chk(m1, {<<e.lv \notin {3, 4}, {"C19"}, "unknown message level">>})

----------------------------------------------------------------------------
\* peers
OnConnect(m, e) ==
  LET hs == {h \in DOMAIN m.hs : m.hs[h].f.path = e.n /\ m.hs[h].f.disp = "pair"}
      opening == {h \in hs : m.hs[h].call = "open"} IN
  IF opening # {} THEN
    LET h == CHOOSE x \in opening : TRUE
        H == m.hs[h]
        may == MayConnect(H.f.auth, e.u, e.g) IN
    IF e.ok THEN
      Chk([m EXCEPT !.hs[h].q = Append(@, e.p), !.ps[e.p] = [Peer0 EXCEPT !.h = h]],
          {<<~may, {"C03"}, "a stranger connected to the socket">>})
    ELSE Chk(m, {<<may /\ H.st = "blk" /\ H.q = <<>> /\ At(m.w, e.n).k = "sock" /\ e.err \in {"EACCES", "REFUSED"} /\ ~H.envch, {"C03"},
                   "the authority cannot connect to the socket">>})
  ELSE IF e.ok /\ \E h \in hs : m.hs[h].ph \in {"refused", "paired", "closed"}
       THEN Bad(m, {"C06"}, "the socket still accepts peers after the opening")
  ELSE m

OnSend(m, e) == IF e.n > 0 /\ m.ps[e.p].tx = -1 /\ Len(e.d) > 0 THEN [m EXCEPT !.ps[e.p].tx = e.d[1][1]] ELSE m
\* (a peer that shut its own receiving side reads an end of file that says nothing about the plugin)
OnRecv(m, e) == [m EXCEPT !.ps[e.p].rx = RCat(@, e.d), !.ps[e.p].eof = @ \/ (e.eof /\ "rd" \notin m.ps[e.p].cl)]
OnClose(m, e) ==
  LET P == m.ps[e.p]
      m1 == [m EXCEPT !.ps[e.p].cl = @ \cup {e.how}] IN
  IF P.h = 0 \/ m.hs[P.h].q = <<>> \/ m.hs[P.h].q[1] # e.p \/ e.how = "wr" THEN m1
  ELSE LET H == m.hs[P.h] IN
       IF H.call \in {"log", "winsize"}
       THEN [m1 EXCEPT !.hs[P.h].lossy = TRUE, !.hs[P.h].must0 = @ \/ (H.st = "blk" /\ H.nr = "send")]
       ELSE m1
OnDrain(m, e) == [m EXCEPT !.ps[e.p].dr = e.on]

OnSig(m, e) ==
  LET H == m.hs[e.h]
      counted == H.call # "" /\ ~(e.s = "INT" /\ m.cs[e.h].sa = "ign")
      waits == counted /\ e.s = "INT" /\ e.at = "blk" /\ H.call = "open" /\ H.nr # "send" IN
  [m EXCEPT !.hs[e.h].nsig = IF counted THEN @ + 1 ELSE @,
            !.hs[e.h].sigw = IF waits THEN @ + 1 ELSE @,
            !.hs[e.h].sigany = @ \/ counted]
OnFault(m, e) ==
  LET soft == e.w \in {"short", "sig"} \/ (e.s = "send" /\ e.w = "err" /\ e.n = 4) IN
  [m EXCEPT !.hs[e.h].flt = @ \cup {e.s}, !.hs[e.h].hard = @ \/ ~soft,
            !.hs[e.h].cf = @ \/ e.s \in {"close", "shutdown"}]

----------------------------------------------------------------------------
\* Is a refusal of a session that needed a pair explained by anything?
Excuse(m, H) ==
  \/ H.flt # {} \/ H.sigany \/ H.envch
  \/ Len(H.f.path) > 90                 \* a socket's address has room for 107 bytes (and the recorder puts a directory of its own in front)
  \/ H.q # <<>> /\ LET P == m.ps[H.q[1]] IN (P.tx >= 0 /\ P.tx \notin {89, 121}) \/ P.cl # {}
Approved(m, H) == H.q # <<>> /\ m.ps[H.q[1]].tx \in {89, 121}

RetOpen(m, e) ==
  LET h == e.h
      H == m.hs[h]
      f == H.f
      d == f.disp
      dl == DispLabel(d)
      pfok == m.cs[h].pf = "ok"
      refused == e.r \in {-1, -2}
      checks ==
        { <<~e.um, {"C06"}, "umask changed by the opening">>,
          <<~e.sa, {"C06"}, "SIGINT handling changed by the opening">>,
          <<e.sg < H.nsig, {"C10"}, "a signal never reached sudo's handler">> }
        \cup (IF d \in {"api", "facts", "ug", "dir", "occ", "stuck"} THEN
          { <<~refused, {dl}, "not refused though " \o d>>,
            <<e.r = 1 /\ d \notin {"api", "facts"}, {"C01", "C02"}, "started without a pair">>,
            <<e.r = 0, {"C01"}, "plugin unloaded instead of the command refused">>,
            <<refused /\ d # "stuck" /\ ~ErrAfter(m, h), {"C19", "C11"}, "malformed or missing error text">>,
            <<refused /\ pfok /\ d = "ug" /\ ~IsErr(Said(H)), {"C04"}, "user prompted though refused for -u and -g">>,
            <<refused /\ pfok /\ d = "api" /\ ~(HasSub(SaidErr(H), L_V19) /\ HasSub(SaidErr(H), f.ver)), {"C16"}, "versions not shown">>,
            <<refused /\ pfok /\ d = "facts" /\ ~\E k \in f.bad : HasSub(SaidErr(H), k), {"C15"}, "missing fact not named">> }
        ELSE IF d = "exempt" THEN
          { <<e.r # 1, {"C02"} \cup (IF f.expl THEN {"C04"} ELSE {}), "exempt session not started">>,
            <<H.msgs # <<>>, {"C02"}, "exempt session prompted somebody">> }
        ELSE IF d = "query" THEN
          { <<e.r # 1, {"C13"}, "version query did not succeed">>,
            <<H.msgs # <<>>, {"C13"}, "version query printed something">> }
        ELSE
          { <<e.r \notin {1, -1, -2}, {"C01"}, "neither allowed nor refused">>,
            <<e.r = 1 /\ H.q = <<>>, {"C01", "C02"}, "started without a pair">>,
            <<e.r = 1 /\ H.q # <<>> /\ ~Approved(m, H), {"C01"}, "started without an approval">>,
            <<e.r = 1 /\ H.sigw > 0, {"C10"}, "started after Ctrl-C">>,
            <<e.r # 1 /\ Approved(m, H) /\ ~H.hard /\ H.flt = {} /\ ~H.sigany /\ ~H.envch /\ ~Lost(m.ps[H.q[1]]),
              {"C01"}, "approval not honoured">>,
            <<e.r # 1 /\ ~Approved(m, H) /\ ~Excuse(m, H),
              {"C01"} \cup (IF H.sawsock THEN {} ELSE {"C04"}) \cup (IF f.stale THEN {"C05"} ELSE {}) , "refused without a reason">>,
            <<~Prompted(m, h) /\ (e.r = 1 \/ H.q # <<>>), {"C17"}, "user not prompted">>,
            <<refused /\ ~ErrAfter(m, h), {"C19", "C11"}, "malformed or missing error text">>,
            <<At(m.w, f.path).k = "sock" /\ H.flt \cap {"unlink", "stat", "access"} = {} /\ ~H.envch, {"C06"}, "socket left behind">> })
      ph == IF e.r = 1 THEN (IF d \in {"query", "exempt"} THEN d ELSE IF H.q # <<>> THEN "paired" ELSE "bogus")
            ELSE IF d = "none" THEN "bogus" ELSE "refused" IN
  [Chk(m, checks) EXCEPT !.hs[h].call = "", !.hs[h].ph = ph, !.hs[h].st = "idle",
     !.hs[h].bases = IF H.q # <<>> THEN OpenStreams(H, m.ps[H.q[1]]) ELSE {}]

Output == {"ttyout", "stdout", "stderr", "winsize"}
RetLog(m, e) ==
  LET h == e.h
      H == m.hs[h]
      paired == H.ph = "paired"
      P == IF paired THEN m.ps[H.q[1]] ELSE Peer0
      out == H.s \in Output
      lost == paired /\ Lost(P) /\ ~H.lossy
      checks ==
        { <<~e.um, {"C06"}, "umask changed">>,
          <<~e.sa, {"C06"}, "SIGINT handling changed">>,
          <<e.sg < H.nsig, {"C10"}, "a signal never reached sudo's handler">>,
          <<e.r = 0 /\ H.ph \in {"paired", "exempt"} /\ ~ErrAfter(m, h), {"C19", "C11"}, "malformed or missing error text">>,
          <<e.r = 1 /\ H.msgs # <<>>, {"C19"}, "unexpected text for the user">> }
        \cup (IF H.ph \in {"none", "query", "refused", "closed"} THEN
          { <<e.r # 0, {"C13"}, "callback outside a session not answered with termination">> }
        ELSE IF H.ph = "exempt" THEN
          { <<e.r # 1, IF H.s = "stdin" THEN {"C09", "C02"} ELSE {"C08", "C02"}, "exempt session disturbed">> }
        ELSE IF paired /\ H.s = "stdin" THEN { <<e.r # 0, {"C09"}, "piped input accepted">> }
        ELSE IF paired /\ H.s = "ttyin" THEN { <<e.r # 1, {"C09"}, "typed input rejected">> }
        ELSE IF paired THEN
          { <<e.r \notin {0, 1}, {"C08"}, "told to carry on without the plugin">>,
            <<e.r = 1 /\ lost /\ H.d # <<>>, {"C08"}, "told to carry on after the loss of the pair">>,
            <<e.r = 1 /\ H.must0, {"C08"}, "told to carry on with undelivered output">>,
            <<e.r # 1 /\ ~Lost(P) /\ ~H.hard /\ ~H.over, {"C08"}, "terminated though the pair is there">> }
        ELSE {})
      m1 == Chk(m, checks) IN
  IF ~paired \/ ~out THEN [m1 EXCEPT !.hs[h].call = "", !.hs[h].st = "idle"]
  \* after a write that failed in the middle, what a later one adds is anybody's guess
  ELSE IF e.r = 1 /\ H.frozen THEN [m1 EXCEPT !.hs[h].call = "", !.hs[h].st = "idle", !.hs[h].ph = "bogus"]
  ELSE IF e.r = 1 THEN [m1 EXCEPT !.hs[h].call = "", !.hs[h].st = "idle", !.hs[h].out = RCat(@, H.d)]
  ELSE [m1 EXCEPT !.hs[h].call = "", !.hs[h].st = "idle", !.hs[h].over = TRUE, !.hs[h].frozen = @ \/ H.d # <<>>,
                  !.hs[h].out = IF H.frozen THEN @ ELSE RCat(@, H.d)]

RetOther(m, e) ==
  LET h == e.h
      H == m.hs[h]
      info == SaidInfo(H)
      m1 == Chk(m, { <<~e.um, {"C06"}, "umask changed">>,
                     <<~e.sa, {"C06"}, "SIGINT handling changed">> }
               \cup IF e.c = "version" /\ H.ph \in {"query", "exempt", "paired"} THEN
                     { <<e.r # 1, {"C13"}, "version report failed">>,
                       <<m.cs[h].pf = "ok" /\ ~(Count(info, L_Name) = 1 /\ Count(info, m.ver) = 1 /\ Len(SaidErr(H)) = 0
                                               /\ info[Len(info)] = 10), {"C13"}, "version not reported once by name and version">> }
                    ELSE IF e.c = "close" THEN { <<H.msgs # <<>>, {"C13"}, "close printed something">> } ELSE {}) IN
  [m1 EXCEPT !.hs[h].call = "", !.hs[h].st = "idle",
             !.hs[h].ph = IF e.c = "close" /\ @ # "none" THEN "closed" ELSE @,
             !.hs[h].was = IF e.c = "close" THEN H.ph = "paired" ELSE @]

OnRet(m, e) == IF e.c = "open" THEN RetOpen(m, e) ELSE IF e.c \in {"log", "winsize"} THEN RetLog(m, e) ELSE RetOther(m, e)

----------------------------------------------------------------------------
\* every process is at rest: judge what everybody has received and who waits for what
PairChecks(m, h, st, nr) ==
  LET H == m.hs[h] IN
  IF H.q = <<>> \/ H.ph \in {"bogus", "dead"} THEN {}
  ELSE LET p == H.q[1]
           P == m.ps[p]
           reads == P.dr /\ P.cl \cap {"full", "rd"} = {}
           io == IF H.s \in {"stdin", "ttyin"} THEN {"C09", "C07"} ELSE {"C07"} IN
    { <<\E i \in 2..Len(H.q) : m.ps[H.q[i]].rx # <<>>, {"C20", "C07"}, "a further peer was sent something">>,
      <<H.ph # "open" /\ ~H.cf /\ \E i \in 2..Len(H.q) : LET X == m.ps[H.q[i]] IN X.dr /\ ~Lost(X) /\ ~X.eof, {"C06", "C20"},
        "a further peer is still connected after the opening">> }
    \cup CASE H.ph = "open" ->
           { <<~SomePrefix(P.rx, OpenStreams(H, P)), {"C17"}, "wrong prompt sent to the pair">>,
             <<st = "blk" /\ reads /\ ~\E b \in Pps(H) : RPrefix(b, P.rx), {"C17", "C01"}, "complete prompt not sent before waiting">>,
             <<st = "blk" /\ nr # "send" /\ (P.tx >= 0 \/ P.cl \cap {"full", "wr"} # {}), {"C01"}, "still waiting after the answer">>,
             <<st = "blk" /\ P.eof, {"C06"}, "pair disconnected while waiting">> }
         [] H.ph = "refused" ->
           { <<~SomePrefix(P.rx, H.bases), {"C17", "C07"}, "wrong data sent to the pair">>,
             <<reads /\ ~P.eof /\ ~H.cf, {"C06"}, "connection to the pair left open after a refusal">> }
         [] H.ph = "paired" ->
           LET pend == IF H.call # "" /\ H.s \in Output THEN RCat(H.out, H.d) ELSE H.out IN
           { <<~H.frozen /\ reads /\ H.call = "" /\ ~\E b \in H.bases : P.rx = RCat(b, H.out), io, "pair did not receive exactly the output">>,
             <<~H.frozen /\ reads /\ H.call = "" /\ ~\E b \in H.bases : RPrefix(b, P.rx), {"C01", "C17"}, "approved without the complete prompt">>,
             <<~SomePrefix(P.rx, {RCat(b, pend) : b \in H.bases}), io, "pair received something else than the output">>,
             <<reads /\ P.eof, {"C06"}, "connection to the pair closed during the session">> }
         [] H.ph = "closed" ->
           { <<reads /\ ~P.eof /\ ~H.cf, {"C06"}, "connection to the pair left open after close">>,
             <<H.was /\ ~SomePrefix(P.rx, {RCat(b, H.out) : b \in H.bases}), {"C07"}, "pair received something else than the output">>,
             <<H.was /\ reads /\ ~H.frozen /\ ~\E b \in H.bases : P.rx = RCat(b, H.out), {"C07"}, "output lost at close">> }
         [] OTHER -> {}

WaitChecks(m, h, nr) ==
  LET H == m.hs[h]
      f == H.f IN
  IF H.call = "open" THEN
    IF f.disp # "pair" THEN { <<TRUE, {DispLabel(f.disp)} \cup (IF f.disp \in {"exempt"} THEN {"C02"} ELSE {}), "waits though " \o f.disp>> }
    ELSE { <<H.sigw > 0, {"C10"}, "still waiting after Ctrl-C">>,
           <<~Prompted(m, h), {"C17"}, "waits without having prompted the user">> }
         \cup (IF H.q = <<>> THEN
           { <<At(m.w, f.path).k # "sock" /\ ~H.envch, {"C05", "C01"}, "waits without its socket">>,
             <<At(m.w, f.path).k = "sock" /\ ~H.envch /\ ~Reachable(f.auth, At(m.w, f.path)), {"C03"}, "the authority could not connect">> }
         ELSE {})
  ELSE IF H.call \in {"log", "winsize"} THEN
    LET stuck == H.ph # "paired" \/ H.s \notin Output \/ (LET P == m.ps[H.q[1]] IN P.dr \/ Lost(P)) IN
    { <<stuck, IF H.s \in {"stdin", "ttyin"} THEN {"C09"} ELSE {"C07", "C08"}, "output callback blocks">> }
  ELSE { <<TRUE, {"C13"}, "callback blocks">> }

OnQ(m, e) ==
  LET n == Len(e.st)
      checks == UNION { PairChecks(m, h, e.st[h], e.nr[h]) \cup (IF e.st[h] = "blk" THEN WaitChecks(m, h, e.nr[h]) ELSE {}) : h \in 1..n }
      m1 == Chk(m, checks) IN
  [m1 EXCEPT !.hs = [h \in DOMAIN m.hs |->
      LET H == m.hs[h]
          narrow == IF H.ph = "paired" /\ H.call = "" /\ ~H.frozen /\ H.q # <<>> /\ m.ps[H.q[1]].dr /\ m.ps[H.q[1]].cl \cap {"full", "rd"} = {}
                    THEN {b \in H.bases : m.ps[H.q[1]].rx = RCat(b, H.out)} ELSE {} IN
      [H EXCEPT !.st = e.st[h], !.nr = e.nr[h], !.bases = IF narrow # {} THEN narrow ELSE @]]]

\* a host died or misbehaves
OnDead(m, e) ==
  LET H == m.hs[e.h]
      m1 == [m EXCEPT !.hs[e.h].ph = "dead", !.hs[e.h].call = "", !.hs[e.h].st = "dead"] IN
  IF e.how = "kill" THEN m1
  ELSE Bad(m1, {"C11"} \cup CallLabel(H) \cup (IF e.sig = 2 THEN {"C10"} ELSE {}) \cup (IF ~H.f.tty \/ H.msgs # <<>> THEN {"C19"} ELSE {})
            \cup (IF H.call = "open" /\ H.f.path # <<>> /\ At(m.w, H.f.path).k = "sock" /\ ~H.envch THEN {"C06"} ELSE {}),
           "sudo crashed in " \o H.call)
OnLoop(m, e) == LET H == m.hs[e.h] IN Bad(m, {"C11"} \cup CallLabel(H), "endless loop in " \o H.call)
OnEscape(m, e) == LET H == m.hs[e.h] IN
  Bad(m, IF H.call = "open" THEN {"C05"} \cup {DispLabel(H.f.disp)} ELSE {"C06"}, "tried to change the filesystem elsewhere")

Step(m, e) ==
  CASE e.e = "call" -> OnCall(m, e)
    [] e.e = "ret" -> OnRet(m, e)
    [] e.e = "fs" -> OnFs(m, e)
    [] e.e = "env" -> OnEnv(m, e)
    [] e.e = "tty" -> OnTty(m, e)
    [] e.e = "printf" -> OnPrintf(m, e)
    [] e.e = "connect" -> OnConnect(m, e)
    [] e.e = "send" -> OnSend(m, e)
    [] e.e = "recv" -> OnRecv(m, e)
    [] e.e = "pclose" -> OnClose(m, e)
    [] e.e = "drain" -> OnDrain(m, e)
    [] e.e = "sig" -> OnSig(m, e)
    [] e.e = "fault" -> OnFault(m, e)
    [] e.e = "q" -> OnQ(m, e)
    [] e.e = "dead" -> OnDead(m, e)
    [] e.e \in {"spin", "runaway"} -> OnLoop(m, e)
    [] e.e = "escape" -> OnEscape(m, e)
    [] OTHER -> m
====
