---- MODULE Ffi ----
(* The contract of the plugin framework (sudo_plugin) as a monitor over
   observable events: what sudo calls and gets back, and what a plugin built on
   the framework (harness/probe) is asked to do and is told.

   Events (e.e), beside those of Contract.tla:
     m h m i ..       method m of instance i was called; a.k tells what it did:
                      ok | err (o, l: the codes its error converts to; t: texts, outermost first)
                      | panic | print / line (o: level, t: the text it printed);
                      m = "drop": instance i is destroyed
     facts set usr cmd etc     what the framework says about the session
     get m k u g               key k of map m, read as every type
     still ..                  what an instance sees of its session when it is closed or destroyed *)
EXTENDS Session

LabelAll(labels, why) == {<<l, why>> : l \in labels}
FBad(m, labels, why) == [m EXCEPT !.bad = @ \cup LabelAll(labels \cup m.focus, why)]
FChk(m, checks) == [m EXCEPT !.bad = @ \cup UNION {LabelAll(x[2] \cup m.focus, x[3]) : x \in {y \in checks : y[1]}}]

\* kind "a": a plugin with its own error type; "b": the framework's error type, hints ignored, own version method
FStart(tr, focus) ==
  LET c0 == Read(tr.hosts[1])
      c == [c0 EXCEPT !.env = OptMap(@)] IN
  [c |-> c, focus |-> focus, kind |-> tr.kind, nkeys |-> tr.nkeys, facts |-> tr.facts, pver |-> tr.pver,
   ph |-> "none", inst |-> 0, made |-> 0, call |-> "", s |-> "", d |-> <<>>, x |-> <<>>, y |-> <<>>,
   ms |-> <<>>, drops |-> <<>>, nf |-> 0, ng |-> 0, msgs |-> <<>>, bad |-> {}]

FwOpen(m) == IF m.kind = "a" THEN -2 ELSE -1       \* how the plugin's error type maps the framework's own errors
Ignoring(m) == m.kind = "b"
FDisp(c) == IF ~Supported(c) THEN "api" ELSE IF BadFacts(c) # {} THEN "facts" ELSE IF Command(c) = <<>> THEN "query" ELSE "run"

Hint(c, s) == Flag(c, CASE s = "ttyin" -> K_iolog_ttyin [] s = "ttyout" -> K_iolog_ttyout [] s = "stdin" -> K_iolog_stdin
                        [] s = "stdout" -> K_iolog_stdout [] s = "stderr" -> K_iolog_stderr)

Text(m, lv) == FoldLeft(LAMBDA a, x : IF x[1] = lv THEN a \o x[2] ELSE a, <<>>, m.msgs)
ErrorText(ts) == FoldLeft(LAMBDA a, t : a \o L_ProbeTag \o t \o <<10>>, <<10>>, ts)
\* what the action of a method lets the user see, at level lv
Shown(a, lv) == IF a.k = "err" THEN (IF lv = 3 THEN ErrorText(a.t) ELSE <<>>)
                ELSE IF a.k = "print" /\ a.o = lv THEN a.t[1]
                ELSE IF a.k = "line" /\ a.o = lv THEN L_ProbeTag \o a.t[1] \o <<10>>
                ELSE <<>>
TextChecks(m, a) ==
  IF m.c.pf # "ok" \/ a.k = "panic" THEN {}
  ELSE { <<a.k = "err" /\ Text(m, 3) # Shown(a, 3), {"C11", "C19"}, "error text not shown exactly once">>,
         <<a.k # "err" /\ Text(m, 3) # Shown(a, 3), {"C19"}, "wrong text at the error level">>,
         <<Text(m, 4) # Shown(a, 4), {"C19"}, "wrong text at the informational level">> }
Silent(m) == { <<m.msgs # <<>>, {"C19"}, "unexpected text for the user">> }

OpenCode(o) == IF o \in {1, 0, -2} THEN o ELSE -1
LogCode(l) == IF l \in {1, 0} THEN l ELSE -1

----------------------------------------------------------------------------
FCall(m, e) ==
  LET m1 == [m EXCEPT !.call = e.c, !.ms = <<>>, !.drops = <<>>, !.nf = 0, !.ng = 0, !.msgs = <<>>, !.s = "", !.d = <<>>, !.x = <<>>, !.y = <<>>] IN
  CASE e.c = "open" -> FChk([m1 EXCEPT !.ph = FDisp(m.c)],
                            { <<e.ty # 2 \/ e.vm # 1, {"C12"}, "not an I/O plugin of API version 1">> })
    [] e.c = "log" -> [m1 EXCEPT !.s = e.m, !.d = RNorm(e.d)]
    [] e.c = "winsize" -> [m1 EXCEPT !.s = "winsize", !.x = e.l, !.y = e.w]
    [] e.c = "close" -> [m1 EXCEPT !.x = e.x, !.y = e.y]
    [] OTHER -> [m1 EXCEPT !.x = e.x]

FMethod(m, e) ==
  LET m1 == IF e.m = "drop" THEN [m EXCEPT !.drops = Append(@, e.i)] ELSE [m EXCEPT !.ms = Append(@, e)]
      who == IF m.call = "close" THEN {"C12", "C13"} ELSE IF m.call = "open" THEN {"C13"} ELSE {"C12"}
      wanted == CASE m.call = "open" -> e.m = "open"
                  [] m.call = "log" -> e.m = m.s
                  [] m.call = "winsize" -> e.m = "winsize"
                  [] m.call = "close" -> e.m \in {"close", "drop"}
                  [] m.call = "version" -> e.m = "version"
                  [] OTHER -> FALSE IN
  FChk(m1, { <<~wanted, who \cup (IF e.m = "drop" THEN {"C13"} ELSE {}), "method " \o e.m \o " reached from callback " \o m.call>>,
             <<wanted /\ e.m \notin {"drop", "close"} /\ m.ms # <<>>, who, "method called more than once">>,
             <<e.m \notin {"open", "version"} /\ e.i # m.inst, {"C13"}, "method called on an instance that does not exist">>,
             <<m.call = "open" /\ m.ph # "run", IF m.ph = "query" THEN {"C13"} ELSE IF m.ph = "api" THEN {"C16"} ELSE {"C15"}, "plugin instantiated though " \o m.ph>> })

----------------------------------------------------------------------------
\* what the framework says about the session (C15)
Oct(s) == LET d == IF Len(s) > 0 /\ s[1] = 43 THEN Tail(s) ELSE s IN
  IF Len(d) > 0 /\ (\A i \in 1..Len(d) : d[i] \in 48..55) /\ DecLeq(Strip0(d), L_MaxOct) THEN Some(Strip0(d)) ELSE None
SFlag(c, k) == Or(GetBool(c.set, k), FALSE)
SetFacts(c) == LET s == c.set IN [
  bsd_auth_type |-> GetText(s, K_bsd_auth_type), close_from |-> GetInt(s, K_closefrom, "u64"), debug_flags |-> GetText(s, K_debug_flags),
  debug_level |-> GetInt(s, K_debug_level, "u64"), ignore_ticket |-> SFlag(c, K_ignore_ticket), implied_shell |-> SFlag(c, K_implied_shell),
  login_class |-> GetText(s, K_login_class), login_shell |-> SFlag(c, K_login_shell), max_groups |-> GetInt(s, K_max_groups, "u64"),
  network_addrs |-> (LET t == GetText(s, K_network_addrs) IN IF t.ok THEN Or(NetAddrs(t.v), <<>>) ELSE <<>>),
  noninteractive |-> SFlag(c, K_noninteractive), plugin_dir |-> GetText(s, K_plugin_dir).v, plugin_path |-> GetText(s, K_plugin_path).v,
  preserve_environment |-> SFlag(c, K_preserve_environment), preserve_groups |-> SFlag(c, K_preserve_groups), progname |-> GetText(s, K_progname).v,
  prompt |-> GetText(s, K_prompt), remote_host |-> GetText(s, K_remote_host), run_shell |-> SFlag(c, K_run_shell), runas_group |-> GetText(s, K_runas_group),
  runas_user |-> GetText(s, K_runas_user), selinux_role |-> GetText(s, K_selinux_role), selinux_type |-> GetText(s, K_selinux_type),
  set_home |-> SFlag(c, K_set_home), sudoedit |-> SFlag(c, K_sudoedit), timeout |-> GetText(s, K_timeout) ]
UsrFacts(c) == LET u == c.usr
                   num(k, t) == GetInt(u, k, t).v IN [
  cols |-> NumOr(u, K_cols, "u64", L_D80), cwd |-> GetText(u, K_cwd).v, egid |-> num(K_egid, "u32"), euid |-> num(K_euid, "u32"), gid |-> num(K_gid, "u32"),
  groups |-> GetList(u, K_groups, "u32").v, host |-> GetText(u, K_host).v, lines |-> NumOr(u, K_lines, "u64", L_D24), pgid |-> num(K_pgid, "i32"),
  pid |-> num(K_pid, "i32"), ppid |-> num(K_ppid, "i32"), sid |-> NumOr(u, K_sid, "i32", L_D0), tcpgid |-> NumOr(u, K_tcpgid, "i32", L_Dm1),
  tty |-> GetText(u, K_tty), uid |-> num(K_uid, "u32"), umask |-> GetText(u, K_umask), user |-> GetText(u, K_user).v ]
CmdFacts(c) == LET x == c.cmd
                   t(k) == GetText(x, k)
                   n(k) == GetInt(x, k, "u64")
                   b(k) == Flag(c, k) IN [
  chroot |-> t(K_chroot), close_from |-> n(K_closefrom), command |-> Command(c), cwd |-> t(K_cwd), exec_background |-> b(K_exec_background), exec_fd |-> n(K_execfd),
  iolog_compress |-> b(K_iolog_compress), iolog_group |-> t(K_iolog_group), iolog_mode |-> t(K_iolog_mode), iolog_path |-> t(K_iolog_path),
  iolog_stdin |-> b(K_iolog_stdin), iolog_stdout |-> b(K_iolog_stdout), iolog_stderr |-> b(K_iolog_stderr), iolog_ttyin |-> b(K_iolog_ttyin),
  iolog_ttyout |-> b(K_iolog_ttyout), iolog_user |-> t(K_iolog_user), login_class |-> t(K_login_class), nice |-> n(K_nice), noexec |-> b(K_noexec),
  preserve_fds |-> Or(GetList(x, K_preserve_fds, "i32"), <<>>), preserve_groups |-> b(K_preserve_groups), runas_egid |-> Egid(c), runas_euid |-> Euid(c),
  runas_gid |-> RunasGid(c), runas_groups |-> GetList(x, K_runas_groups, "u32"), runas_uid |-> RunasUid(c), selinux_role |-> t(K_selinux_role),
  selinux_type |-> t(K_selinux_type), set_utmp |-> b(K_set_utmp), sudoedit |-> b(K_sudoedit), sudoedit_checkdir |-> Or(GetBool(x, K_sudoedit_checkdir), TRUE),
  sudoedit_follow |-> b(K_sudoedit_follow), timeout |-> n(K_timeout), umask |-> (LET v == t(K_umask) IN Or(IF v.ok THEN Oct(v.v) ELSE None, L_D7777)),
  umask_override |-> GetBool(x, K_umask_override), use_pty |-> b(K_use_pty), utmp_user |-> t(K_utmp_user) ]
Wrong(got, want) == {k \in DOMAIN want : k \notin DOMAIN got \/ got[k] # want[k]}
FFacts(m, e) ==
  LET c == m.c
      w == Wrong(e.set, SetFacts(c)) \cup Wrong(e.usr, UsrFacts(c)) \cup Wrong(e.cmd, CmdFacts(c)) IN
  FChk([m EXCEPT !.nf = @ + 1],
    { <<w # {}, {"C15"}, "wrong facts " \o ToString(w)>>,
      <<e.etc.argv # c.argv, {"C18"}, "wrong arguments">>,
      <<e.etc.invocation # CommandLine(c), {"C18"}, "wrong command line">>,
      <<e.etc.cwd # Cwd(c), {"C15", "C17"}, "wrong working directory">>,
      <<ToSet(e.etc.gids) # RunGroups(c), {"C15", "C02"}, "wrong groups of the command">>,
      <<e.etc.api # DecOf(c.maj) \o <<46>> \o DecOf(c.min), {"C16"}, "wrong API version">>,
      <<e.etc.name # L_ProbeName \/ e.etc.ver # m.pver, {"C13"}, "wrong name or version of the plugin">> })

\* the environment outlives the instance: what an instance sees of it at its end is what it saw at its beginning
FStill(m, e) ==
  LET c == m.c IN
  FChk(m, { <<e.host # GetText(c.usr, K_host).v \/ e.user # GetText(c.usr, K_user).v \/ e.cwd # Cwd(c) \/ e.command # Command(c) \/ e.argv # c.argv
              \/ ToSet(e.gids) # RunGroups(c) \/ e.invocation # CommandLine(c) \/ e.raw # GetBytes(c.set, K_plugin_path), {"C13"}, "the environment of an instance changed under it">> })

\* one key of one list, read as every type (C14)
MapOf(c, n) == CASE n = "opt" -> c.opt [] n = "env" -> c.env [] n = "set" -> c.set [] n = "usr" -> c.usr [] n = "cmd" -> c.cmd
SameSet(got, l) == got.ok = l.ok /\ ToSet(got.v) = ToSet(l.v) /\ Len(got.v) = Cardinality(ToSet(l.v))

WrongGets(mp, k, g) ==
  LET raw == GetBytes(mp, k)
      v == IF raw.ok /\ Utf8(raw.v) THEN raw ELSE None
      \* a value that is not text has no typed reading
      P(t) == IF v.ok THEN ParseInt(t, v.v) ELSE None
      Q(t) == IF v.ok THEN ParseList(t, v.v) ELSE None IN
    {x[2] : x \in {y \in
      { <<g.str # v, "str">>, <<g.string # v, "string">>, <<g.path # v, "path">>,
        <<g.bool # (IF v.ok THEN ParseBool(v.v) ELSE [ok |-> FALSE, v |-> FALSE]), "bool">>,
        <<g.vpath # Q("path"), "list of paths">> }
      \cup {<<g[t] # P(t), t>> : t \in IntTypes}
      \cup {<<g["v" \o t] # Q(t), "list of " \o t>> : t \in IntTypes}
      \cup {<<~SameSet(g["h" \o t], Q(t)), "set of " \o t>> : t \in IntTypes} : y[1]}}
FGet(m, e) ==
  LET mp == MapOf(m.c, e.m)
      w == IF Utf8(e.k) THEN WrongGets(mp, e.k, e.g) ELSE {} IN
  FChk([m EXCEPT !.ng = @ + 1],
    { <<e.g.raw # GetBytes(mp, e.k), {"C14"}, "wrong raw value">>,
      <<e.u # Utf8(e.k), {"C14"}, "harness: key">>,
      <<w # {}, {"C14"}, "wrong reading as " \o ToString(w)>> })

----------------------------------------------------------------------------
FRet(m, e) ==
  LET done == [m EXCEPT !.call = ""]
      n == Len(m.ms)
      a == IF n > 0 THEN m.ms[1].a ELSE [k |-> "ok", o |-> 0, l |-> 0, t |-> <<>>]
      good == a.k \in {"ok", "print", "line"}
      t == Text(m, 3)
      half == Len(t) \div 2 IN
  CASE e.c = "open" ->
         IF m.ph \in {"api", "facts"} THEN
           LET lab == IF m.ph = "api" THEN "C16" ELSE "C15" IN
           FChk([done EXCEPT !.ph = "refused"],
             { <<e.r # FwOpen(m), {"C11", lab}, "the framework's error not converted by the plugin">>,
               <<e.r \notin {-1, -2}, {lab}, "not refused though " \o m.ph>>,
               <<m.c.pf = "ok" /\ ~(Starts(t, <<10>> \o L_ProbeTag) /\ Len(t) > Len(L_ProbeTag) + 2 /\ t[Len(t)] = 10), {"C11", "C19"}, "malformed or missing error text">>,
               <<m.c.pf = "ok" /\ Len(t) > 0 /\ SubSeq(t, 1, half) = Drop(t, half), {"C11"}, "error shown twice">>,
               <<m.c.pf = "ok" /\ m.ph = "api" /\ ~(HasSub(t, L_V19) /\ HasSub(t, DecOf(m.c.maj) \o <<46>> \o DecOf(m.c.min))), {"C16"}, "versions not shown">>,
               <<m.c.pf = "ok" /\ m.ph = "facts" /\ ~\E k \in BadFacts(m.c) : HasSub(t, k), {"C15"}, "missing fact not named">>,
               <<Text(m, 4) # <<>>, {"C19"}, "unexpected informational text">> })
         ELSE IF m.ph = "query" THEN
           FChk(done, {<<e.r # 1, {"C13"}, "version query did not succeed">>, <<m.msgs # <<>>, {"C13"}, "version query printed something">>})
         ELSE
           FChk([done EXCEPT !.ph = IF good /\ n > 0 THEN "open" ELSE "failed", !.inst = IF good /\ n > 0 THEN m.ms[1].i ELSE 0],
             { <<n # 1, {"C13", "C12"}, "opening did not reach the plugin once">>,
               <<n = 1 /\ good /\ e.r # 1, {"C11"}, "successful opening not reported">>,
               <<n = 1 /\ a.k = "err" /\ e.r # OpenCode(a.o), {"C11"}, "opening error not converted by the plugin">>,
               <<n = 1 /\ a.k = "panic" /\ e.r \notin {-1, -2}, {"C11"}, "panic in open is not a refusal">>,
               <<m.facts /\ m.nf # 1, {"C14", "C15"}, "the facts could not be read">>,
               <<m.facts /\ m.ng # 5 * m.nkeys, {"C14"}, "not every key was answered">> } \cup TextChecks(m, a))
    [] e.c \in {"log", "winsize"} ->
         IF m.inst = 0 THEN
           FChk(done, { <<n > 0, {"C13"}, "reached the plugin without an instance">>,
                        <<e.r # 0, {"C13"}, "callback outside a session not answered with termination">> })
         ELSE IF m.s # "winsize" /\ ~Ignoring(m) /\ ~Hint(m.c, m.s) THEN
           FChk(done, { <<n > 0, {"C12"}, "logged though the hint is off">>,
                        <<e.r # 1, {"C12"}, "skipping not reported as success">> } \cup Silent(m))
         ELSE LET x == m.ms[1] IN
           FChk(done, { <<n # 1, {"C12"}, "callback did not reach the plugin once">>,
                        <<n > 0 /\ m.s = "winsize" /\ x.m = "winsize" /\ (x.x # m.x \/ x.y # m.y), {"C12"}, "wrong size">>,
                        <<n > 0 /\ m.s # "winsize" /\ x.m = m.s /\ RNorm(x.d) # m.d, {"C12"}, "wrong data">>,
                        <<n = 1 /\ good /\ e.r # 1, {"C11"}, "success not reported">>,
                        <<n = 1 /\ a.k = "err" /\ e.r # LogCode(a.l), {"C11"}, "error not converted by the plugin">>,
                        <<n = 1 /\ a.k = "panic" /\ e.r # 0, {"C11"}, "panic is not a termination">> } \cup TextChecks(m, a))
    [] e.c = "close" ->
         IF m.inst = 0 THEN FChk([done EXCEPT !.ph = "closed"], { <<n > 0 \/ m.drops # <<>>, {"C13"}, "close without an instance reached the plugin">> })
         ELSE FChk([done EXCEPT !.ph = "closed", !.inst = 0],
                { <<m.kind = "a" /\ n # 1, {"C13", "C12"}, "instance not handed to close exactly once">>,
                  <<m.kind = "b" /\ n # 0, {"C13"}, "unexpected method at close">>,
                  <<m.kind = "a" /\ n > 0 /\ (m.ms[1].m # "close" \/ m.ms[1].x # m.x \/ m.ms[1].y # m.y), {"C12"}, "wrong exit status or error">>,
                  <<m.drops # <<m.inst>>, {"C13"}, "instance not destroyed exactly once">> }
                \cup (IF n = 0 THEN Silent(m) ELSE IF a.k = "err" THEN {} ELSE TextChecks(m, a)))
    [] OTHER -> \* version
         IF m.ph \in {"query", "open", "failed"} THEN
           IF m.kind = "b" THEN
             FChk(done, { <<n # 1, {"C13"}, "version not asked of the plugin once">>,
                          <<n = 1 /\ m.ms[1].x # (m.x # <<48>>), {"C12"}, "wrong verbosity">>,
                          <<n = 1 /\ good /\ e.r # 1, {"C13", "C11"}, "version report failed">> }
                        \cup (IF n = 1 /\ a.k # "err" THEN TextChecks(m, a) ELSE {}))
           ELSE FChk(done, { <<e.r # 1, {"C13"}, "version report failed">>,
                             <<m.c.pf = "ok" /\ ~(Count(Text(m, 4), L_ProbeName) = 2 /\ Count(Text(m, 4), m.pver) = 1 /\ t = <<>>
                                                   /\ Text(m, 4)[Len(Text(m, 4))] = 10), {"C13"}, "version not reported once by name and version">> })
         ELSE done

FStep(m, e) ==
  CASE e.e = "call" -> FCall(m, e)
    [] e.e = "m" -> FMethod(m, e)
    [] e.e = "facts" -> FFacts(m, e)
    [] e.e = "still" -> FStill(m, e)
    [] e.e = "get" -> FGet(m, e)
    [] e.e = "printf" -> FChk([m EXCEPT !.msgs = Append(@, <<e.lv, e.d>>)], {<<e.lv \notin {3, 4}, {"C19"}, "unknown message level">>})
    [] e.e = "ret" -> FRet(m, e)
    [] e.e = "dead" -> IF e.how = "kill" THEN m ELSE FBad(m, {"C11"} \cup (IF m.call = "open" /\ (m.nf > 0 \/ m.facts) /\ m.ms = <<>> THEN {"C14", "C15"} ELSE {})
                                                               \cup (IF m.msgs # <<>> THEN {"C19"} ELSE {}) \cup (IF m.call \in {"close", "version"} \/ m.inst = 0 THEN {"C13"} ELSE {}), "sudo crashed in " \o m.call)
    [] e.e \in {"spin", "runaway"} -> FBad(m, {"C11"}, "endless loop in " \o m.call)
    [] OTHER -> m
====
