---- MODULE System ----
(* The whole system: people with accounts, sudo with the plugin (Session says
   what it does with a request and who may connect), the sockets it leaves and
   the approval script (Approve says what a run of it does).  Sudo itself is
   assumed to let everybody ask for everything, which is the worst case.

   What the parts are for, taken together:
     Competent  whoever approves could act as the target on their own
     Together   nobody gains by themselves what they did not have: the first
                gain of every person was let through by another person *)
EXTENDS Session, Json
A == INSTANCE Approve

CONSTANTS Own,       \* person -> their accounts
          Member,    \* uid -> further groups of that account
          Users,     \* accounts one can ask for
          Asked,     \* groups one can ask for
          Enforced_, \* groups whose use needs a pair
          MaxAsk, Bugs, Reporting

VARIABLES shells,  \* [h, u, g, gs]: person h can run things as user u, group g with groups gs
          ses,     \* requests that wait: [h, u, n, q, auth, sock]
          helped,  \* people somebody else has approved
          alone,   \* somebody gained something by themselves
          misfit   \* somebody approved who could not act as the target
vars == <<shells, ses, helped, alone, misfit>>
B(b) == b \in Bugs
No == -1
GroupsOf(u) == {u} \cup Member[u]
D(n) == DecOf(n)
Nums(s) == LET q == SetToSeq(s) IN Join([i \in 1..Len(q) |-> D(q[i])], 44)
Home == <<47>>

\* sudo's lists for a request q = [u, g, cmd] made in shell s (No: not given)
Uid_(s, q) == IF q.u = No THEN s.u ELSE q.u
Gid_(s, q) == IF q.g # No THEN q.g ELSE IF q.u = No THEN s.g ELSE q.u
Gids(s, q) == (IF q.u = No THEN s.gs ELSE GroupsOf(q.u)) \cup {Gid_(s, q)}
Cmd(q) == IF q.cmd = "approve" THEN L_DefBinary ELSE IF q.cmd = "fake" THEN <<47, 116>> \o Drop(L_DefBinary, 8) ELSE <<47, 99>>
Cfg(s, n, q) ==
  [ set |-> (K_plugin_dir :> Home) @@ (K_plugin_path :> Home) @@ (K_progname :> Home)
            @@ (IF q.u = No THEN <<>> ELSE (K_runas_user :> D(q.u))) @@ (IF q.g = No THEN <<>> ELSE (K_runas_group :> D(q.g))),
    usr |-> (K_cwd :> Home) @@ (K_host :> Home) @@ (K_user :> D(s.u)) @@ (K_uid :> D(s.u)) @@ (K_euid :> L_D0) @@ (K_gid :> D(s.g)) @@ (K_egid :> D(s.g))
            @@ (K_groups :> Nums(s.gs)) @@ (K_pid :> D(n)) @@ (K_ppid :> D(n)) @@ (K_pgid :> D(n)),
    cmd |-> (K_command :> Cmd(q)) @@ (K_runas_uid :> D(Uid_(s, q))) @@ (K_runas_gid :> D(Gid_(s, q))) @@ (K_runas_groups :> Nums(Gids(s, q))) @@ (K_iolog_ttyout :> L_true),
    opt |-> (K_gids_enforced :> Nums(Enforced_)),
    argv |-> <<>>, maj |-> 1, min |-> 14, eu |-> L_D0, eg |-> L_D0 ]
W == (Norm(L_DefDir) :> [k |-> "dir", u |-> L_D0, g |-> L_D0, m |-> 493, d |-> <<>>])
Disp_(c) == LET d == Disp(c, W) IN
  IF B("ug") /\ d = "ug" THEN "pair"
  ELSE IF B("basename") /\ d = "pair" /\ FileName(Command(c)) = FileName(Binary(c)) THEN "exempt" ELSE d
Auth_(c) == IF B("groupwins") /\ ExplicitGroup(c) THEN [by |-> "group", id |-> Egid(c)]
            ELSE IF B("uid") /\ ~NewUser(c) THEN [by |-> "user", id |-> Euid(c)] ELSE Auth(c)
N(a) == A!IntOfDec(a)
\* tabulated: every shell there can be, every request
Accounts == UNION {Own[h] : h \in DOMAIN Own} \cup Users
Shapes == {[u |-> u, g |-> g, gs |-> GroupsOf(u) \cup {g}] : u \in Accounts, g \in Accounts \cup Asked}
Wants == [u : Users \cup {No}, g : Asked \cup {No}, cmd : {"work", "fake", "approve"}]
Table == TLCEval([x \in Shapes \X Wants |-> LET c == Cfg(x[1], 7, x[2]) d == Disp_(c) IN [d |-> d, a |-> IF d = "pair" THEN Auth_(c) ELSE [by |-> "none", id |-> <<>>]]])
Of(s, q) == Table[<<[u |-> s.u, g |-> s.g, gs |-> s.gs], q>>]
\* the socket the plugin leaves
Sock(c, a) == [ n |-> SockName(c), u |-> IF a.by = "user" THEN N(a.id) ELSE 0, g |-> IF a.by = "group" THEN N(a.id) ELSE 0,
                m |-> (IF a.by = "user" THEN 128 ELSE 16) + (IF B("world") THEN 2 ELSE 0) ]

Able(h) == {<<"u", s.u>> : s \in {x \in shells : x.h = h}} \cup UNION {{<<"g", g>> : g \in s.gs} : s \in {x \in shells : x.h = h}}
           \cup (IF \E s \in shells : s.h = h /\ s.u = 0 THEN {<<"u", u>> : u \in Users} \cup {<<"g", g>> : g \in Asked} ELSE {})
Gain(s, q) == {<<"u", Uid_(s, q)>>, <<"g", Gid_(s, q)>>}
Shell(s, q) == [h |-> s.h, u |-> Uid_(s, q), g |-> Gid_(s, q), gs |-> Gids(s, q)]

Requests == [u : Users \cup {No}, g : Asked \cup {No}, cmd : {"work", "fake"}]
Init == /\ shells = UNION {{[h |-> h, u |-> u, g |-> u, gs |-> GroupsOf(u)] : u \in Own[h]} : h \in DOMAIN Own}
        /\ Reporting => \A x \in DOMAIN Table : PrintT("ASK " \o ToJson([s |-> [x[1] EXCEPT !.gs = SetToSeq(@)], q |-> x[2], d |-> Table[x].d, by |-> Table[x].a.by]))
        /\ ses = <<>> /\ helped = {} /\ alone = FALSE /\ misfit = FALSE

\* a person asks sudo for something
Ask == \E s \in shells, q \in Requests :
  LET d == Of(s, q).d IN
  /\ \/ /\ d = "exempt"
        /\ shells' = shells \cup {Shell(s, q)}
        /\ alone' = (alone \/ (s.h \notin helped /\ ~(Gain(s, q) \subseteq Able(s.h))))
        /\ UNCHANGED <<ses, helped, misfit>>
     \/ /\ d = "pair" /\ Len(ses) < MaxAsk
        /\ ses' = Append(ses, [h |-> s.h, u |-> s.u, s |-> s, q |-> q, want |-> Gain(s, q), sock |-> Sock(Cfg(s, Len(ses) + 7, q), Of(s, q).a), open |-> TRUE])
        /\ UNCHANGED <<shells, helped, alone, misfit>>

\* somebody who runs as user u with groups gs reaches the socket of request i and says yes; h is the person behind it
Yes(h, u, gs, i) ==
  LET r == ses[i] IN
  /\ shells' = shells \cup {Shell(r.s, r.q)}
  /\ ses' = [ses EXCEPT ![i].open = FALSE]
  /\ helped' = IF h # r.h THEN helped \cup {r.h} ELSE helped
  /\ alone' = (alone \/ (h = r.h /\ r.h \notin helped /\ ~(r.want \subseteq Able(r.h))))
  \* as the target user where that is another one, and in the target group
  /\ misfit' = (misfit \/ ~(u = 0 \/ ((Uid_(r.s, r.q) = r.s.u \/ u = Uid_(r.s, r.q)) /\ Gid_(r.s, r.q) \in gs)))

\* without the script, from a shell that can write to the socket
Direct == \E s \in shells, i \in 1..Len(ses) : ses[i].open /\ A!Writable(ses[i].sock, s.u, s.gs) /\ Yes(s.h, s.u, s.gs, i)

\* through the script, started through sudo as user or group q
RECURSIVE Ends(_, _, _, _)
Ends(i, u, gs, sudo) ==   \* as whom the script reaches socket i in the end, or nobody
  LET m == A!AStart([socks |-> [j \in 1..Len(ses) |-> ses[j].sock]])
      real == IF B("ownuid") THEN u ELSE sudo
      args == <<D(ses[i].u), Drop(SubSeq(ses[i].sock.n, 1, Len(ses[i].sock.n) - 5), Len(D(ses[i].u)) + 1)>>
      e == [e |-> "run", uid |-> u, gids |-> SetToSeq(gs), sudo |-> sudo, args |-> args]
      d == IF B("noself") THEN A!Disp(m, e, 999) ELSE A!Disp(m, e, real) IN
  CASE d = "contact" -> {[u |-> u, gs |-> gs]}
    [] d = "user" -> IF u = ses[i].sock.u THEN {} ELSE Ends(i, ses[i].sock.u, GroupsOf(ses[i].sock.u), u)
    [] d = "group" -> IF ses[i].sock.g \in gs THEN {} ELSE Ends(i, u, gs \cup {ses[i].sock.g}, u)
    [] OTHER -> {}
Script == \E s \in shells, i \in 1..Len(ses), u \in Users \cup {No}, g \in Asked \cup {No} :
  LET q == [u |-> u, g |-> g, cmd |-> "approve"] IN
  /\ ses[i].open /\ (u # No \/ g # No)
  /\ Of(s, q).d = "exempt"
  /\ \E x \in Ends(i, Uid_(s, q), Gids(s, q), s.u) : Yes(s.h, x.u, x.gs, i)

Next == Ask \/ Direct \/ Script
Spec == Init /\ [][Next]_vars
Competent == ~misfit
Together == ~alone
\* two people with an account each, of which the second is in group 7; one person with two accounts
OwnA == (1 :> {1}) @@ (2 :> {2})
OwnB == (1 :> {1, 2})
MemberA == [u \in 0..9 |-> IF u = 2 THEN {7} ELSE {}]
\* the system is of use: somebody can be helped (checked as an invariant that has to fail)
Useless == helped = {}
====
