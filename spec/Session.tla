---- MODULE Session ----
(* What a sudo invocation is, as a function of the raw key=value lists sudo
   passes to the plugin and of the filesystem it starts in: the facts about it
   (C15), whether it needs a pair (C02), who may approve it (C03, C04), where
   its socket goes (C05) and what the two prompts say (C17, C18).

   A configuration c is a record: set, usr, cmd, opt are maps read from sudo's
   raw lists (OptMap), argv a list of byte strings, plus maj, min (the API
   version), pf (what sudo's printf does), sa (sudo's SIGINT handling), eu
   and eg (the effective ids sudo runs with);
   a world w maps absolute paths to [k, u, g, m, d]. *)
EXTENDS Options

----------------------------------------------------------------------------
Read(c) == [c EXCEPT !.set = OptMap(c.set), !.usr = OptMap(c.usr), !.cmd = OptMap(c.cmd), !.opt = OptMap(c.opt)]

\* C15: mandatory facts
MandText(c) == {<<c.set, K_plugin_dir>>, <<c.set, K_plugin_path>>, <<c.set, K_progname>>,
                <<c.usr, K_cwd>>, <<c.usr, K_host>>, <<c.usr, K_user>>}
MandInt(c) == {<<K_egid, "u32">>, <<K_euid, "u32">>, <<K_gid, "u32">>, <<K_uid, "u32">>,
               <<K_pgid, "i32">>, <<K_pid, "i32">>, <<K_ppid, "i32">>}
BadFacts(c) == {x[2] : x \in {y \in MandText(c) : ~GetText(y[1], y[2]).ok}}
         \cup {x[1] : x \in {y \in MandInt(c) : ~GetInt(c.usr, y[1], y[2]).ok}}
         \cup (IF GetList(c.usr, K_groups, "u32").ok THEN {} ELSE {K_groups})

----------------------------------------------------------------------------
\* paths
IsAbs(p) == Len(p) > 0 /\ p[1] = 47
Parts(p) == SelectSeq(SplitOn(p, 47), LAMBDA x : x # <<>> /\ x # <<46>>)
\* canonical text of a path (repeated and trailing slashes and `.` components mean nothing)
Norm(p) == LET q == Parts(p) IN IF IsAbs(p) THEN FoldLeft(LAMBDA a, x : a \o <<47>> \o x, <<>>, q) ELSE Join(q, 47)
SamePath(a, b) == IsAbs(a) = IsAbs(b) /\ Parts(a) = Parts(b)
FileName(p) == LET q == Parts(p) IN IF q = <<>> \/ q[Len(q)] = <<46, 46>> THEN p ELSE q[Len(q)]
JoinPath(d, n) == Norm(d) \o <<47>> \o n

NoObj == [k |-> "none", u |-> <<>>, g |-> <<>>, m |-> 0, d |-> <<>>]
At(w, p) == IF p \in DOMAIN w THEN w[p] ELSE NoObj
\* follows a symbolic link at p (to an absolute target)
Real(w, p) == LET o == At(w, p) IN IF o.k = "lnk" THEN Norm(o.d) ELSE p

----------------------------------------------------------------------------
\* the facts
Flag(c, k) == Or(GetBool(c.cmd, k), FALSE)
NumOr(mp, k, t, d) == Or(GetInt(mp, k, t), d)
RunasUid(c) == NumOr(c.cmd, K_runas_uid, "u32", c.eu)
RunasGid(c) == NumOr(c.cmd, K_runas_gid, "u32", c.eg)
Euid(c) == NumOr(c.cmd, K_runas_euid, "u32", RunasUid(c))
Egid(c) == NumOr(c.cmd, K_runas_egid, "u32", RunasGid(c))
Uid(c) == GetInt(c.usr, K_uid, "u32").v
Gid(c) == GetInt(c.usr, K_gid, "u32").v
Groups_(c) == ToSet(GetList(c.usr, K_groups, "u32").v)
RunGroups(c) == LET l == GetList(c.cmd, K_runas_groups, "u32") IN
                (IF l.ok THEN ToSet(l.v) ELSE Groups_(c)) \cup {Egid(c)}
Enforced(c) == LET l == GetList(c.opt, K_gids_enforced, "u32") IN IF l.ok THEN ToSet(l.v) ELSE {L_D0}
Exempted(c) == LET l == GetList(c.opt, K_gids_exempted, "u32") IN IF l.ok THEN ToSet(l.v) ELSE {}
Binary(c) == Or(GetText(c.opt, K_binary_path), L_DefBinary)
SockDir(c) == Or(GetText(c.opt, K_socket_dir), L_DefDir)
Command(c) == Or(GetBytes(c.cmd, K_command), <<>>)
NewUser(c) == Uid(c) # Euid(c)
NewGroup(c) == Gid(c) # Egid(c)
ExplicitGroup(c) == GetBytes(c.set, K_runas_group).ok

\* C02
FromRoot(c) == Uid(c) = GetInt(c.usr, K_euid, "u32").v
ToSelf(c) == ~NewUser(c) /\ ~NewGroup(c)
IsApproval(c) == SamePath(Command(c), Binary(c))
NotLogged(c) == ~Flag(c, K_iolog_ttyout) /\ ~Flag(c, K_iolog_stdout) /\ ~Flag(c, K_iolog_stderr)
ExemptGroup(c) == Exempted(c) \cap Groups_(c) # {}
NotEnforced(c) == Enforced(c) \cap RunGroups(c) = {}
Exempt(c) == FromRoot(c) \/ ToSelf(c) \/ IsApproval(c) \/ NotLogged(c) \/ ExemptGroup(c) \/ NotEnforced(c)

\* C16: versions are compared by major, then by minor number
Supported(c) == c.maj > 1 \/ (c.maj = 1 /\ c.min >= 9)

\* C05
SockName(c) == Uid(c) \o <<46>> \o GetInt(c.usr, K_pid, "i32").v \o L_DotSock
DirPath(c, w) == Real(w, Norm(SockDir(c)))
SockPath(c, w) == DirPath(c, w) \o <<47>> \o SockName(c)
\* 020 and 002: writable by group, by others
WBit(m, bit) == (m \div bit) % 2 = 1
Trusted(c, w) == LET o == At(w, DirPath(c, w)) IN
                 o.k = "dir" /\ o.u = c.eu /\ ~WBit(o.m, 16) /\ ~WBit(o.m, 2)
Occupied(c, w) == At(w, SockPath(c, w)).k \notin {"none", "sock"}

\* What becomes of a session
Disp(c, w) ==
  IF ~Supported(c) THEN "api"
  ELSE IF BadFacts(c) # {} THEN "facts"
  ELSE IF Command(c) = <<>> THEN "query"
  ELSE IF Exempt(c) THEN "exempt"
  ELSE IF NewUser(c) /\ ExplicitGroup(c) THEN "ug"
  ELSE IF ~NewUser(c) /\ ~ExplicitGroup(c) THEN "stuck"   \* nobody can be asked: no choice but to refuse
  ELSE IF ~Trusted(c, w) THEN "dir"
  ELSE IF Occupied(c, w) THEN "occ"
  ELSE "pair"

\* C03: who may approve
Auth(c) == IF NewUser(c) THEN [by |-> "user", id |-> Euid(c)] ELSE [by |-> "group", id |-> Egid(c)]
\* nothing beyond the authority is granted by owner u, group g and mode m of a socket
\* (the owner of a socket can give itself access whenever it likes)
GrantsOk(a, u, g, m) ==
  /\ u = L_D0 \/ (a.by = "user" /\ u = a.id)
  /\ WBit(m, 16) => (a.by = "group" /\ g = a.id)
  /\ ~WBit(m, 2)
Reachable(a, o) == /\ o.k = "sock"
                   /\ IF a.by = "user" THEN a.id = L_D0 \/ (o.u = a.id /\ WBit(o.m, 128))
                                       ELSE o.g = a.id /\ WBit(o.m, 16)
MayConnect(a, u, g) == u = L_D0 \/ (a.by = "user" /\ u = a.id) \/ (a.by = "group" /\ g = a.id)

----------------------------------------------------------------------------
\* C18: the command line
OnFlag(c, k, t) == IF Or(GetBool(c.set, k), FALSE) THEN <<t>> ELSE <<>>
TextFlag(c, k, t) == LET v == GetText(c.set, k) IN IF v.ok THEN <<t \o v.v>> ELSE <<>>
Flags(c) ==
     (IF GetText(c.set, K_progname).v = L_sudoedit_ THEN <<>> ELSE OnFlag(c, K_sudoedit, L_fEdit))
  \o TextFlag(c, K_runas_user, L_fUser)
  \o TextFlag(c, K_runas_group, L_fGroup)
  \o TextFlag(c, K_prompt, L_fPrompt)
  \o OnFlag(c, K_login_shell, L_fLogin)
  \o OnFlag(c, K_run_shell, L_fShell)
  \o OnFlag(c, K_set_home, L_fHome)
  \o OnFlag(c, K_preserve_environment, L_fPEnv)
  \o OnFlag(c, K_preserve_groups, L_fPGrp)
  \o OnFlag(c, K_ignore_ticket, L_fReset)
  \o OnFlag(c, K_noninteractive, L_fNonI)
  \o TextFlag(c, K_login_class, L_fClass)
  \o TextFlag(c, K_selinux_role, L_fRole)
  \o TextFlag(c, K_selinux_type, L_fType)
  \o TextFlag(c, K_bsd_auth_type, L_fAuth)
  \o (LET v == GetInt(c.set, K_closefrom, "u64") IN IF v.ok THEN <<L_fClose \o v.v>> ELSE <<>>)
CommandLine(c) == Join(<<GetText(c.set, K_progname).v>> \o Flags(c) \o c.argv, 32)

\* C17: prompts
Cwd(c) == Or(GetText(c.cmd, K_cwd), GetText(c.usr, K_cwd).v)
Directive(c, b) ==
  CASE b = 98  -> FileName(Binary(c))                     \* b
    [] b = 66  -> Binary(c)                               \* B
    [] b = 67  -> CommandLine(c)                          \* C
    [] b = 100 -> Cwd(c)                                  \* d
    [] b = 103 -> Gid(c)                                  \* g
    [] b = 104 -> GetText(c.usr, K_host).v                \* h
    [] b = 72  -> NumOr(c.usr, K_lines, "u64", L_D24)     \* H
    [] b = 112 -> GetInt(c.usr, K_pid, "i32").v           \* p
    [] b = 117 -> Uid(c)                                  \* u
    [] b = 85  -> GetText(c.usr, K_user).v                \* U
    [] b = 87  -> NumOr(c.usr, K_cols, "u64", L_D80)      \* W
    [] OTHER   -> <<b>>
\* a lone % at the very end stands for nothing
RECURSIVE ExpandFrom(_, _, _)
ExpandFrom(f, t, esc) ==
  IF Len(t) > 32 THEN LET l == ExpandFrom(f, SubSeq(t, 1, Len(t) \div 2), esc)
                          r == ExpandFrom(f, Drop(t, Len(t) \div 2), l.esc) IN [esc |-> r.esc, out |-> RCat(l.out, r.out)]
  ELSE FoldLeft(LAMBDA a, b : IF a.esc THEN [esc |-> FALSE, out |-> RCat(a.out, f[b])]
                              ELSE IF b = 37 THEN [esc |-> TRUE, out |-> a.out]
                              ELSE [esc |-> FALSE, out |-> RCons(a.out, b, 1)],
                [esc |-> esc, out |-> <<>>], t)
\* the result run-length encoded
Expand(c, t) == ExpandFrom(TLCEval([b \in ToSet(t) |-> Rle(Directive(c, b))]), t, FALSE).out
UserFile(c) == Or(GetText(c.opt, K_user_prompt_path), L_DefUserPrompt)
PairFile(c) == Or(GetText(c.opt, K_pair_prompt_path), L_DefPairPrompt)
FileOr(w, p, dflt) == LET o == At(w, Real(w, Norm(p))) IN IF o.k = "reg" THEN o.d ELSE dflt
UserPrompt(c, w) == Expand(c, FileOr(w, UserFile(c), L_UserPrompt))
PairPrompt(c, w) == Expand(c, FileOr(w, PairFile(c), L_PairPrompt))
\* the invoking user's terminal can be written
Tty(c) == Or(GetText(c.usr, K_tty), <<>>)
TtyOk(c, w) == At(w, Real(w, Norm(Tty(c)))).k = "reg"

\* everything the monitor needs about one opening
Facts(c, w) ==
  LET d == Disp(c, w)
      full == d \notin {"api", "facts", "query"}
      asks == d \in {"pair", "stuck", "dir", "occ"} IN
  [ disp |-> d,
    bad  |-> IF d = "facts" THEN BadFacts(c) ELSE {},
    path |-> IF full THEN SockPath(c, w) ELSE <<>>,
    auth |-> IF full THEN Auth(c) ELSE [by |-> "none", id |-> <<>>],
    expl |-> full /\ ExplicitGroup(c),
    stale |-> d = "pair" /\ At(w, SockPath(c, w)).k = "sock",
    ver  |-> DecOf(c.maj) \o <<46>> \o DecOf(c.min),
    up   |-> IF asks THEN Flat(UserPrompt(c, w)) ELSE <<>>,
    up2  |-> IF asks THEN Flat(Expand(c, L_UserPrompt)) ELSE <<>>,
    pp   |-> IF d = "pair" THEN PairPrompt(c, w) ELSE <<>>,
    pp2  |-> IF d = "pair" THEN Expand(c, L_PairPrompt) ELSE <<>>,
    tty  |-> full /\ TtyOk(c, w) ]
====
