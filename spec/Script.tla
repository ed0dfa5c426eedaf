---- MODULE Script ----
(* The design of the approval script (sample/bin/sudo_approve), together with
   the sudo it re-runs itself through.  A person starts it; whenever it asks
   sudo to run it again, sudo may do so (recording who asked) or refuse.  The
   contract (Approve.tla) watches, and over the whole history nobody may come
   to approve a session they requested themselves. *)
EXTENDS Approve, Json

CONSTANTS Uids, Gids,   \* people and groups
          Modes,        \* write bits of the socket
          ArgKinds,     \* good | otherpid | otheruid | text | few | many
          Generating, Bugs

VARIABLES P, sock, person, req, kind, m, hist
vars == <<P, sock, person, req, kind, m, hist>>
B(b) == b \in Bugs
Pid == <<55>>
Args == CASE kind = "good" -> <<DecOf(req), Pid>> [] kind = "otherpid" -> <<DecOf(req), <<56>>>> [] kind = "otheruid" -> <<DecOf(req + 1), Pid>>
          [] kind = "text" -> <<DecOf(req) \o <<32>>, Pid>> [] kind = "few" -> <<DecOf(req)>> [] OTHER -> <<DecOf(req), Pid, Pid>>

Init == /\ req \in Uids
        /\ sock \in [n : {NameOf(DecOf(req), Pid)}, u : Uids, g : Gids, m : Modes]
        /\ person \in [uid : Uids, gid : Gids, sudo : {-1} \cup Uids]
        /\ kind \in ArgKinds
        /\ P = [pc |-> "new", uid |-> person.uid, gids |-> {person.gid}, sudo |-> person.sudo, who |-> 0, runs |-> 0]
        /\ m = AStart([socks |-> <<sock>>])
        /\ hist = <<>>
Emit(q) == m' = FoldLeft(LAMBDA x, e : IF x.bad = {} THEN AStep(x, e) ELSE x, m, q)
Same == UNCHANGED <<sock, person, req, kind>>
Real == IF P.sudo >= 0 /\ ~B("ownuid") THEN P.sudo ELSE P.uid
Name == IF Len(Args) = 2 THEN NameOf(Args[1], Args[2]) ELSE <<>>

Run == /\ P.pc = "new" /\ P.runs < 3 /\ Same
       /\ Emit(<<[e |-> "run", uid |-> P.uid, gids |-> SetToSeq(P.gids), sudo |-> P.sudo, args |-> Args]>>)
       /\ P' = [P EXCEPT !.pc = "args", !.runs = @ + 1]
       /\ UNCHANGED hist
End(r) == Emit(<<[e |-> "exit", r |-> r]>>) /\ P' = [P EXCEPT !.pc = "done"]
Check == /\ P.pc = "args" /\ Same /\ UNCHANGED hist
         /\ IF Len(Args) # 2 THEN End(1)
            ELSE IF \E i \in 1..2 : ~AllDigits(Args[i]) THEN (IF B("evaluates") THEN Emit(<<[e |-> "mark"]>>) /\ P' = [P EXCEPT !.pc = "done"] ELSE End(1))
            ELSE IF Name # sock.n THEN End(1)
            ELSE UNCHANGED m /\ P' = [P EXCEPT !.pc = "self"]
Self == /\ P.pc = "self" /\ Same /\ UNCHANGED hist
        /\ IF IntOfDec(Args[1]) = Real /\ ~B("noself") THEN End(IF B("self0") THEN 0 ELSE 1) ELSE UNCHANGED m /\ P' = [P EXCEPT !.pc = "access"]
Access == /\ P.pc = "access" /\ Same
          /\ IF Writable(sock, P.uid, P.gids) /\ ~(B("ownerfirst") /\ P.uid = 0)
             THEN Emit(<<[e |-> "contact", n |-> sock.n, uid |-> P.uid], [e |-> "exit", r |-> 0]>>) /\ P' = [P EXCEPT !.pc = "approved"] /\ UNCHANGED hist
             ELSE IF Bit(sock.m, 128) /\ ~B("groupfirst")
             THEN Emit(<<[e |-> "sudo", how |-> "user", who |-> sock.u, args |-> Args, same |-> TRUE], [e |-> "exit", r |-> 0]>>) /\ P' = [P EXCEPT !.pc = "user"] /\ UNCHANGED hist
             ELSE IF Bit(sock.m, 16)
             THEN Emit(<<[e |-> "sudo", how |-> "group", who |-> sock.g, args |-> Args, same |-> TRUE], [e |-> "exit", r |-> 0]>>) /\ P' = [P EXCEPT !.pc = "group"] /\ UNCHANGED hist
             ELSE End(IF B("stuck0") THEN 0 ELSE 2) /\ UNCHANGED hist
\* sudo runs it again, recording its real user; or refuses
Sudo == /\ P.pc \in {"user", "group"} /\ Same /\ UNCHANGED m
        /\ \/ /\ hist' = Append(hist, "yes")
              /\ P' = [P EXCEPT !.pc = "new", !.sudo = P.uid, !.uid = IF P.pc = "user" THEN sock.u ELSE @, !.gids = IF P.pc = "user" THEN {sock.u} ELSE {sock.g} \cup @]
           \/ /\ hist' = Append(hist, "no") /\ P' = [P EXCEPT !.pc = "done"]
Next == Run \/ Check \/ Self \/ Access \/ Sudo
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
Holds == IF m.bad = {} THEN TRUE ELSE PrintT("OBJECTION " \o ToString(m.bad)) /\ FALSE
\* over the whole history: who came here by way of sudo is the person who started
NeverOwn == P.pc = "approved" => (IF person.sudo >= 0 /\ P.runs = 1 THEN person.sudo ELSE person.uid) # req
Ends == <>(P.pc \in {"done", "approved"} \/ P.runs = 3)
Generate == Generating /\ P.pc \in {"done", "approved"} => PrintT("SCEN " \o ToJson([uid |-> person.uid, gid |-> person.gid, sudo |-> person.sudo, sock |-> sock, args |-> Args, sudos |-> hist]))
====
