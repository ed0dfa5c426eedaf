#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
SP='sudo_pair/src/lib.rs'; SK='sudo_pair/src/socket.rs'; TP='sudo_pair/src/template.rs'; SE='sudo_pair/src/errors.rs'
CO='sudo_plugin/src/core.rs'; IE='sudo_plugin/src/plugin/io_env.rs'; IS='sudo_plugin/src/plugin/io_state.rs'
IP='sudo_plugin/src/plugin/io_plugin.rs'; OM='sudo_plugin/src/options/option_map.rs'; TR='sudo_plugin/src/options/traits.rs'
CI='sudo_plugin/src/options/command_info.rs'; UI='sudo_plugin/src/options/user_info.rs'; ST='sudo_plugin/src/options/settings.rs'
PF='sudo_plugin/src/output/print_facility.rs'; VE='sudo_plugin/src/version.rs'; MA='sudo_plugin/src/macros.rs'; ER='sudo_plugin/src/errors.rs'
TY='sudo_plugin/src/output/tty.rs'; SYS='sudo_plugin-sys/src/lib.rs'
API='the sudo_plugin(8) entry points exported by the built shared library'

p('C01','A non-exempt command starts only after a live pair approves it',
 "For every session that is not exempt, sudo is told to proceed only if a peer connected to that session's own approval socket, was sent the complete pair prompt, and the first byte it sent back was `y` or `Y`. Every other history (a different first byte, end-of-file, the peer vanishing, an interrupt, an I/O failure at any step, an internal failure) makes sudo refuse the command, and never merely unload the plugin. An approval given that way is honoured.",
 ['histories','fault_sequences','inputs','schedules'],
 "every sequence of peer actions (connect, any byte(s), half-close, close, extra peers, early answers), every system call of the opening failing, every signal position, every non-exempt session",
 "the plugin crate has no test that opens a session: socket.rs, lib.rs and errors.rs are compiled but never executed by the suite; the property is over histories of another process and faults",
 [SP,SK,SE,CO],[('response','first byte read from the pair, pre-set to a refusal',SP+': remote_pair_prompt'),('socket','accepted connection',SP+': SudoPair.socket')],
 [('connect, prompt, read one byte, compare with y/Y',SP+': open, remote_pair_connect, remote_pair_prompt'),('errors become Deny',SE),('panics become Deny',CO)],[API,'the approval socket'])
p('C02','Exactly the documented sessions bypass pairing',
 "A session proceeds without a pair if and only if the invoker is root (real uid equal to sudo's effective uid), or gains neither a new user nor a new primary group, or runs the configured approval binary, or has output logging off for terminal output, stdout and stderr alike, or has an exempted group in its group list, or the groups the command will run with (its effective gid always included; the invoker's own groups when no target group list is given) contain no enforced group. A session outside these cases is never treated as exempt because a field is unusual, such as a command path that is not valid UTF-8. An exempt session is always allowed to start, creates no socket and prompts nobody.",
 ['inputs','configurations'],"every combination of uids, gids, group lists, target identity, command path bytes, logging hints and plugin options",
 "no test evaluates the exemption rules at all; the combinations are a product of a dozen independent dimensions",
 [SP,IE,CI,UI,CO],[('gids_enforced / gids_exempted','plugin options',SP+': PluginOptions'),('runas_gids','complete target group set',IE+': runas_gids')],
 [('is_exempt and its helpers',SP),('no-command detection',CO+': open')],[API,'the approval socket directory'])
p('C03','The approval socket admits only those who can act as the target',
 "While a session waits, its approval socket can be connected to by those who can act as the target user when the user changes, or as members of the target group when only an explicit group changes, and by nobody else but the superuser. At every instant from its creation to its removal, including after a crash or a failure at any step, the socket never grants more than that. The socket the pair is asked to use really is reachable by those who can act as the target.",
 ['inputs','crash_points','fault_sequences','schedules'],"every target identity; every instant between two system calls; every crash point and every failing call during the opening; every connecting principal",
 "ownership and mode are set by a sequence of system calls as root and observed by other users; no test creates the socket, let alone looks at it between the calls",
 [SP,SK],[('uid/gid/mode of the socket file','who may connect',SK+': Socket::open')],
 [('umask before bind, chown then chmod',SK+': Socket::open'),('socket_uid, socket_gid, socket_mode',SP)],['the approval socket file','connect(2) by other users'])
p('C04','Changing user and explicit group at once is refused',
 "A non-exempt session that both changes the user and names an explicit group is refused, whatever the rest of its configuration, before an approval socket exists and before anyone is prompted. Naming an explicit group without changing the user, or changing the user without naming a group, is not refused for this reason, and an exempt session may use both.",
 ['inputs','configurations'],"every combination of invoking and target uid/gid, explicit user/group flags and exemption rules",
 "no test opens a session; the rule is a conjunction over identities and flags that one example cannot settle",
 [SP,SE],[('settings.runas_group','explicit -g',ST)],[('is_sudoing_to_user_and_group',SP)],[API,'the approval socket directory'])
p('C05','An untrusted socket directory or an occupied path is refused untouched',
 "If the directory for approval sockets is missing, is not a directory, is not owned by sudo's effective user, or is writable by its group or by others, a session that needs a pair is refused and nothing is created, changed or removed in it. The socket is named `<real uid>.<sudo pid>.sock` in the configured directory; an object already at that path that is not a socket is left as it is and the session refused, while a stale socket there is replaced. No other entry of the directory is ever created, changed or removed.",
 ['configurations','inputs'],"every owner/mode/kind of the directory, every kind of object at the path, every other content of the directory, every uid and pid",
 "the checks concern filesystem states a unit test never sets up; none of them is executed by the suite",
 [SK,SP],[('directory owner and mode','trust in the directory',SK+': enforce_ownership')],
 [('enforce_ownership, unlink',SK),('socket_path',SP)],['the approval socket directory',API])
p('C06','No outcome leaves a socket, umask, signal handler or connection behind',
 "However the opening of a session ends (approval, refusal, interrupt, failure), by the time sudo gets the answer the approval socket is gone from the filesystem and accepts no further peer (unless the operating system itself refused the removal), and the process's file-creation mask and its Ctrl-C handling are what they were before. Refusing a session, or closing it, closes the pair's connection; an approved session keeps it open until it is closed, through all logging callbacks, which leave the same state unchanged.",
 ['histories','fault_sequences','configurations'],"every outcome of the opening and every later callback, every failing call, every initial umask and signal disposition",
 "it is a statement about the process and filesystem state after every possible path, including error paths no test takes",
 [SK,SP],[('umask','saved and restored',SK+': Socket::open'),('SIGINT action','saved and restored',SK+': ctrl_c_aborts_syscalls')],
 [('unlink after accept or failure; restore umask; reinstall the handler; shutdown on drop',SK)],[API,'the approval socket directory','the pair connection'])
p('C07','The pair sees all output, complete and in order',
 "In an approved session every byte sudo reports as terminal output, stdout or stderr is delivered to the pair exactly once, unmodified and in the order reported, before sudo is told to go on, and each window resize is delivered in the same stream as the terminal resize sequence ESC [ 8 ; rows ; columns t. This holds for all byte values, sizes and interleavings, for partial and interrupted writes, and whatever sudo's per-stream logging hints say. Apart from the prompt and the echo of its answer, nothing else is ever sent to the pair.",
 ['histories','inputs','fault_sequences','schedules'],"every sequence of output callbacks, every content and size, every pattern of short or interrupted writes, slow and fast peers",
 "no test mirrors any output; partial writes and interrupts are faults of the environment",
 [SP,SK,CO],[('socket stream','bytes owed to and received by the pair',SP+': log_output')],
 [('log_ttyout/log_stdout/log_stderr/change_winsize -> write_all',SP),('from_raw_parts of sudo buffers',CO)],[API,'the pair connection'])
p('C08','Losing the pair terminates the session',
 "Once the pair's connection is gone, the next report of output or of a window resize, and every later one, makes sudo terminate the command. Sudo is never told to carry on with output that could not be delivered to the pair in full, and never told to carry on without the plugin. Without the loss of the pair, output and resizes never terminate the session.",
 ['histories','fault_sequences','schedules'],"every point of the session at which the peer closes, resets or a write fails, followed by any sequence of callbacks",
 "needs another process disappearing at an arbitrary point of a live session",
 [SP,SE,CO],[],[('write error -> SessionTerminated -> LogStatus::Deny',SP+', '+SE)],[API,'the pair connection'])
p('C09','Piped standard input is refused in every paired session',
 "In every paired session, data piped to standard input makes sudo terminate the command, whatever sudo's input-logging hint says, and none of that data is sent to the pair. In an exempt session it is always accepted. Input typed at the terminal is never rejected and never sent to the pair.",
 ['inputs','configurations','histories'],"every combination of logging hints, every session, every position of the input among other callbacks",
 "no test calls the input callbacks; the recommended sudoers configuration (log_output only) is a configuration no test has",
 [SP,CO,IP],[('iolog_stdin hint','input logging asked for by the policy',CI)],[('log_stdin',SP),('hint gating',CO+': log_stdin')],[API])
p('C10','Ctrl-C aborts the wait for a pair',
 "While a session is waiting for a pair to connect, or for the connected pair to answer, Ctrl-C (SIGINT) ends the wait at once and the command is refused, even if sudo's handler asks for interrupted system calls to be restarted. sudo's own handler still runs, sudo is not killed, and signals that are merely handled elsewhere do not turn a wait into an approval.",
 ['schedules','histories'],"every moment of either wait, any number of peers and signals, restarting and non-restarting handlers",
 "asynchronous signals against a blocked process are outside unit tests",
 [SK,SP],[('SA_RESTART','masked during socket calls',SK+': ctrl_c_aborts_syscalls')],[('select(2) before accept; SA_RESTART masked around read',SK)],[API])
p('C11','Errors and panics in a plugin always reach sudo as the right refusal',
 "For any plugin built on the framework, a callback that succeeds yields sudo's success code, one that returns an error yields exactly the code chosen by that plugin's error conversion (refusal of the command or termination of the session by default), and a panic in any callback yields refusal when opening and termination when logging or resizing. No panic ever unwinds into or aborts sudo. The error's text is shown to the user exactly once, followed by the text of each underlying cause exactly once.",
 ['programs','inputs','histories'],"every plugin behaviour (success, any error with a cause chain of any length, panic) in every callback",
 "the framework's callbacks are never invoked by the suite; error chains and panics across the C boundary are not sampled",
 [CO,ER,IP,PF],[],[('catch_unwind_open / catch_unwind_log',CO),('From<Result>, From<thread::Result> for status codes',CO),('write_error',PF)],['a probe plugin built with the framework, driven through its C entry points'])
p('C12','Each sudo callback reaches the matching plugin method with exact data',
 "Every logging and resize callback in sudo's I/O plugin interface reaches the plugin method of the same name exactly once per call, in order, with exactly the bytes or sizes sudo passed, and close passes on sudo's exit status and error. A logging method is skipped, and success reported, only when the policy's hint for that very stream is off and the plugin has not opted out of the hints; resizes are never skipped.",
 ['inputs','configurations','histories'],"every callback, every hint combination, every buffer, every sequence",
 "the exported C table is never driven by the suite and the layout tests of the bindings abort on this toolchain",
 [CO,MA,IP,CI,SYS],[],[('log_* trampolines and hint gating',CO),('function table',MA)],['a probe plugin built with the framework, driven through its C entry points'])
p('C13','Callbacks outside an open session are refused; close ends a session once',
 "A plugin instance exists exactly from a successful opening until close: logging and resize callbacks that arrive when none exists are answered with termination, and close hands the instance over exactly once, destroys it exactly once, and is harmless when there is none. A version query (an opening without a command) instantiates no plugin, asks no pair and succeeds, and a plugin's version is then reported to the user once, by name and with the plugin's own version.",
 ['histories'],"every sequence of callbacks, in and out of protocol order, within one process",
 "it quantifies over callback histories; the suite invokes no callback",
 [IS,CO,MA,IP,SP],[('SUDO_IO_ENV, SUDO_IO_PLUGIN','static instance slots',MA)],[('IoState::init / drop / io_plugin',IS),('empty command check',CO+': open')],['a probe plugin and the real plugin, driven through their C entry points'])
p('C14','Key=value lists are read by one rule for every byte string',
 "For every list of byte strings, an entry's key is everything before its first `=` and its value everything after it (an entry without `=` is its own key and value), the last entry for a key wins, entries do not affect each other, and raw bytes are returned unchanged. Typed access yields a value if and only if the raw value is valid UTF-8 and its entire text denotes a value in the type's syntax and range (for lists, every separated element does), and otherwise an error; it never panics and never returns part of a value.",
 ['inputs'],"every list of byte strings and every supported type",
 "the unit tests sample ten lists; separators, signs, ranges, empty elements, UTF-8 boundaries and malformed addresses are not settled by them",
 [OM,TR,ST],[],[('OptionMap::from_raw, get, get_str, get_bytes',OM),('FromSudoOption',TR)],['the framework\'s public option API'])
p('C15','Missing session facts fail closed; optional settings take their defaults',
 "If any mandatory fact about the session or the invoking user is missing or unparseable, the command is refused, even for sessions that would be exempt, and the user is told which one. Every optional fact, hint or plugin option that is absent or unparseable takes its documented default (enforced groups: 0; exempted groups: none; approval binary, prompt files and socket directory: the documented paths; effective target ids: the real target ids) and never causes a refusal or a crash by itself; well-formed ones are used as given.",
 ['inputs','configurations'],"every subset of missing, duplicated or malformed entries in the settings, user, command and plugin option lists",
 "no test parses a settings, user_info or command_info list",
 [UI,ST,CI,SP,IE],[],[('TryFrom<OptionMap>',UI+', '+ST+', '+CI),('PluginOptions::from',SP)],[API,'the framework\'s public option API'])
p('C16','Unsupported sudo API versions are refused',
 "An API version lower than 1.9 (compared by major, then by minor number) is always refused, with both versions shown to the user, and without any effect on the filesystem or contact with a pair; no version of 1.9 or later is refused for its version.",
 ['inputs'],"all 2^32 version words","the version check is executed by no test; only the bit-packing helpers have doc-tests, on three values",
 [VE,IE,SYS],[],[('Version::check, from_ffi',VE)],[API])
p('C17','Both prompts are the configured template filled with true session facts',
 "For every template and session, the prompt given to the invoking user and the prompt sent to the pair are exactly the configured template (the built-in one if it cannot be read), with each `%` plus documented directive letter replaced by that fact of this session, `%` plus any other byte replaced by that byte, everything else verbatim (a lone `%` at the very end stands for nothing), and substituted text never expanded again. The invoking user's prompt is given before any wait for a pair, on the user's terminal if that can be written and through sudo otherwise, and failing to give it neither refuses nor blocks the session.",
 ['inputs','configurations','fault_sequences'],"every template byte string (a single trailing % is dropped, as documented), every session fact, every failure of the terminal or template file",
 "the unit tests expand a dozen templates with made-up expansions; the mapping of directives to facts and both deliveries are untested",
 [SP,TP,IE,TY],[],[('template_spec, local_pair_prompt, remote_pair_prompt',SP),('Spec::expand',TP),('cwd, invocation',IE)],[API,'the pair connection','the user\'s terminal'])
p('C18','The pair is shown the command line as invoked',
 "The command line shown in prompts is the name sudo was invoked by, then every option in effect (edit, user, group, prompt, login, shell, home, environment, groups, timestamp, non-interactive, login class, role, type, auth type, close-from) with its value, then the command and all of its arguments, byte for byte, in order and separated by single spaces, for any number and content of arguments. (An option whose value is not valid text counts as not given.)",
 ['inputs'],"every combination of options and every argument vector, including empty and non-UTF-8 arguments",
 "no test reconstructs an invocation",
 [IE,ST],[],[('IoEnv::invocation',IE),('Settings::flags',ST)],['the pair connection','the framework\'s public API'])
p('C19','Text for the user passes through sudo verbatim',
 "Every text the plugin or framework prints to the user through sudo's printf facility appears byte for byte as given, at the right message level (informational or error): `%` sequences in it are never interpreted as formatting directives, whatever they are and whatever user-controlled text contains them. Lines and errors are prefixed with the plugin's name, and a missing or failing printf never crashes sudo or changes the decision.",
 ['inputs','fault_sequences'],"every text, including command arguments and paths under the invoking user's control, and every printf outcome",
 "nothing in the suite prints through a real variadic printf",
 [PF,CO,IE,SP],[],[('PrintFacility::write',PF)],[API])
p('C20','Concurrent sessions decide and mirror independently',
 "Any number of sessions may wait in the same directory at once: each has its own socket, the first peer accepted on a session's own socket alone decides that session, and nothing done to one session approves, refuses, wakes or leaks output of another. Peers beyond the first are never read from, written to, or able to change a decision.",
 ['schedules','histories'],"every interleaving of two or more sessions, their peers, answers, signals and outputs",
 "requires several processes and peers in arbitrary interleavings",
 [SK,SP],[],[('socket_path by uid and pid',SP),('single accept, listener dropped',SK)],[API,'the approval sockets'])
p('C21','The approval script never lets a requester approve their own session',
 "The approval script connects its caller to a session's socket only if the caller's real user (the one sudo recorded, when run under sudo) differs from the requester in the socket's name and the caller can write to the socket; otherwise, for a different user, it re-runs itself through sudo as the socket's owner if the owner may write, else as its group if the group may write, and else fails. Its uid and pid arguments must be plain decimal numbers: anything else is rejected without being evaluated or used, and without contacting any socket.",
 ['inputs','configurations','histories'],"every caller, recorded user, argument string, socket owner, group and mode, and every chain of re-invocations",
 "the shell script has no tests",
 ['sample/bin/sudo_approve'],[],[('main, pair','sample/bin/sudo_approve')],['commands the script runs (sudo, socat)','its exit status'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(json.dumps(x))
