---- MODULE Approve ----
(* The contract of the approval script (C21), as a monitor over what a run of
   it can be observed to do:
     run   uid gids sudo args    it is started: by whom, what sudo recorded (-1: nothing), arguments
     sudo  how who args same     it asks sudo to run something as user/group `who`; same: it is the script itself
     contact path uid            it connects the caller to a socket
     mark                        an argument was evaluated, or a file appeared
     exit  r                     it ended *)
EXTENDS Bytes, TLC

Bad(m, why) == [m EXCEPT !.bad = @ \cup {<<"C21", why>>}]
Chk(m, checks) == [m EXCEPT !.bad = @ \cup {<<"C21", x[2]>> : x \in {y \in checks : y[1]}}]

\* tr.socks: the sockets there are: n (name), u, g, m (write bits: 128 owner, 16 group, 2 others)
AStart(tr) == [socks |-> tr.socks, on |-> FALSE, d |-> "", uid |-> 0, gids |-> {}, real |-> 0, args |-> <<>>, sock |-> [n |-> <<>>, u |-> 0, g |-> 0, m |-> 0], did |-> <<>>, bad |-> {}]

Plain(a) == AllDigits(a) /\ (Len(a) = 1 \/ a[1] # 48) /\ Len(a) <= 9
Odd(a) == AllDigits(a) /\ ~Plain(a)       \* digits, but with leading zeros or beyond any uid: may be rejected or read as some number
L_dsock == <<46, 115, 111, 99, 107>>
NameOf(u, p) == u \o <<46>> \o p \o L_dsock
Bit(m, b) == (m \div b) % 2 = 1
Writable(s, uid, gids) == uid = 0 \/ IF s.u = uid THEN Bit(s.m, 128) ELSE IF s.g \in gids THEN Bit(s.m, 16) ELSE Bit(s.m, 2)
Find(m, n) == {s \in ToSet(m.socks) : s.n = n}
IntOfDec(a) == FoldLeft(LAMBDA n, b : n * 10 + b - 48, 0, a)

\* what has to happen: usage | none (no such socket) | self | contact | user | group | stuck | odd
Disp(m, e, real) ==
  IF Len(e.args) # 2 \/ \E i \in 1..Len(e.args) : ~AllDigits(e.args[i]) THEN "usage"
  ELSE IF \E i \in 1..2 : Odd(e.args[i]) THEN "odd"
  ELSE LET f == Find(m, NameOf(e.args[1], e.args[2])) IN
       IF f = {} THEN "none"
       ELSE LET s == CHOOSE x \in f : TRUE IN
            IF IntOfDec(e.args[1]) = real THEN "self"
            ELSE IF Writable(s, e.uid, ToSet(e.gids)) THEN "contact"
            ELSE IF Bit(s.m, 128) THEN "user"
            ELSE IF Bit(s.m, 16) THEN "group"
            ELSE "stuck"

ARun(m, e) == LET real == IF e.sudo >= 0 THEN e.sudo ELSE e.uid
                  d == Disp(m, e, real)
                  f == IF Len(e.args) = 2 THEN Find(m, NameOf(e.args[1], e.args[2])) ELSE {} IN
  [m EXCEPT !.on = TRUE, !.d = d, !.uid = e.uid, !.gids = ToSet(e.gids), !.real = real, !.args = e.args, !.did = <<>>,
            !.sock = IF f = {} THEN m.sock ELSE CHOOSE x \in f : TRUE]
\* the requester of a session, from the name of its socket
Requester(n) == LET i == IndexOf(n, 46) IN IF i > 1 /\ AllDigits(SubSeq(n, 1, i - 1)) /\ i <= 10 THEN IntOfDec(SubSeq(n, 1, i - 1)) ELSE -1
AContact(m, e) ==
  Chk([m EXCEPT !.did = Append(@, "contact")],
    { <<m.d = "usage", "contacted a socket with arguments that are not numbers">>,
      <<m.d = "self" \/ Requester(e.n) = m.real, "a requester approves their own session">>,
      <<m.d \in {"none", "user", "group", "stuck"}, "contacted a socket the caller cannot write">>,
      <<m.d = "contact" /\ e.n # m.sock.n, "contacted another socket">>,
      <<m.d = "odd" /\ ~\E s \in Find(m, e.n) : Writable(s, m.uid, m.gids), "contacted a socket the caller cannot write">>,
      <<m.did # <<>>, "acted more than once">> })
ASudo(m, e) ==
  Chk([m EXCEPT !.did = Append(@, "sudo")],
    { <<m.d = "usage", "ran sudo with arguments that are not numbers">>,
      <<m.d = "self", "ran sudo for the requester">>,
      <<m.d \in {"none", "contact", "stuck"}, "ran sudo though " \o m.d>>,
      <<m.d \in {"user", "group"} /\ (e.how # m.d \/ e.who # (IF m.d = "user" THEN m.sock.u ELSE m.sock.g)), "ran sudo as somebody else">>,
      <<m.d \in {"user", "group"} /\ (~e.same \/ e.args # m.args), "did not run itself with the same arguments">>,
      <<m.did # <<>>, "acted more than once">> })
AExit(m, e) ==
  Chk([m EXCEPT !.on = FALSE],
    { <<m.d = "contact" /\ m.did = <<>>, "a different user who can write was not connected">>,
      <<m.d \in {"user", "group"} /\ m.did = <<>>, "did not re-run itself through sudo">>,
      <<m.d \in {"usage", "none", "self", "stuck"} /\ e.r = 0, "refusal reported as success">> })
AStep(m, e) == CASE e.e = "run" -> ARun(m, e)
                 [] e.e = "contact" -> AContact(m, e)
                 [] e.e = "sudo" -> ASudo(m, e)
                 [] e.e = "mark" -> Bad(m, "an argument was evaluated")
                 [] e.e = "exit" -> AExit(m, e)
                 [] OTHER -> m
====
