#!/usr/bin/env python3
"""Generates spec/Lit.tla: byte-string literals (TLA+ strings cannot be indexed byte by byte)."""
KEYS = """plugin_dir plugin_path progname bsd_auth_type closefrom debug_flags debug_level ignore_ticket implied_shell
login_class login_shell max_groups network_addrs noninteractive preserve_environment preserve_groups prompt remote_host
run_shell runas_group runas_user selinux_role selinux_type set_home sudoedit timeout
cwd egid euid gid groups host pgid pid ppid uid user umask cols lines sid tcpgid tty
chroot command exec_background execfd iolog_compress iolog_group iolog_mode iolog_path iolog_stdin iolog_stdout
iolog_stderr iolog_ttyin iolog_ttyout iolog_user nice noexec preserve_fds runas_egid runas_euid runas_gid runas_groups
runas_uid set_utmp sudoedit_checkdir sudoedit_follow umask_override use_pty utmp_user
binary_path user_prompt_path pair_prompt_path socket_dir gids_enforced gids_exempted""".split()
LIT = {'true': 'true', 'false': 'false', 'D80': '80', 'D24': '24', 'D0': '0', 'Dm1': '-1', 'MaxU32': '4294967295',
 'MaxU8': '255', 'MaxI8': '127', 'MinI8': '128', 'MaxU16': '65535', 'MaxI16': '32767', 'MinI16': '32768',
 'MaxI32': '2147483647', 'MinI32': '2147483648', 'MaxU64': '18446744073709551615', 'MaxI64': '9223372036854775807',
 'MinI64': '9223372036854775808', 'DefBinary': '/usr/bin/sudo_approve', 'DefUserPrompt': '/etc/sudo_pair.prompt.user',
 'DefPairPrompt': '/etc/sudo_pair.prompt.pair', 'DefDir': '/var/run/sudo_pair', 'DotSock': '.sock',
 'UserPrompt': '%B %u %p\n', 'PairPrompt': '%U@%h:%d$ %C\ny/n? [n]: ', 'Resize': '\x1b[8;', 'sudoedit_': 'sudoedit',
 'fEdit': '--edit', 'fUser': '--user ', 'fGroup': '--group ', 'fPrompt': '--prompt ', 'fLogin': '--login', 'fShell': '--shell',
 'fHome': '--set-home', 'fPEnv': '--preserve-env', 'fPGrp': '--preserve-groups', 'fReset': '--reset-timestamp',
 'fNonI': '--non-interactive', 'fClass': '--login-class ', 'fRole': '--role ', 'fType': '--type ', 'fAuth': '--auth-type ',
 'fClose': '--close-from ', 'Tag': 'sudo_pair: ', 'Name': 'sudo_pair', 'V19': '1.9', 'LF': '\n', 'DevFull': '/dev/full',
 'D4095': '4095', 'D7777': '7777', 'MaxOct': '37777777777', 'ProbeTag': 'probe: ', 'ProbeName': 'probe', 'Version': ' version '}
def seq(s): return '<<' + ','.join(str(b) for b in s.encode()) + '>>'
out = ['---- MODULE Lit ----', '\\* Generated by tools/mklit.py.']
out += [f'K_{k} == {seq(k)}' for k in dict.fromkeys(KEYS)]
out += [f'L_{k} == {seq(v)}' for k, v in LIT.items()]
out.append('====')
open(__file__.rsplit('/', 2)[0] + '/spec/Lit.tla', 'w').write('\n'.join(out) + '\n')
