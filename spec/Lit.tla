---- MODULE Lit ----
\* Generated by tools/mklit.py.
K_plugin_dir == <<112,108,117,103,105,110,95,100,105,114>>
K_plugin_path == <<112,108,117,103,105,110,95,112,97,116,104>>
K_progname == <<112,114,111,103,110,97,109,101>>
K_bsd_auth_type == <<98,115,100,95,97,117,116,104,95,116,121,112,101>>
K_closefrom == <<99,108,111,115,101,102,114,111,109>>
K_debug_flags == <<100,101,98,117,103,95,102,108,97,103,115>>
K_debug_level == <<100,101,98,117,103,95,108,101,118,101,108>>
K_ignore_ticket == <<105,103,110,111,114,101,95,116,105,99,107,101,116>>
K_implied_shell == <<105,109,112,108,105,101,100,95,115,104,101,108,108>>
K_login_class == <<108,111,103,105,110,95,99,108,97,115,115>>
K_login_shell == <<108,111,103,105,110,95,115,104,101,108,108>>
K_max_groups == <<109,97,120,95,103,114,111,117,112,115>>
K_network_addrs == <<110,101,116,119,111,114,107,95,97,100,100,114,115>>
K_noninteractive == <<110,111,110,105,110,116,101,114,97,99,116,105,118,101>>
K_preserve_environment == <<112,114,101,115,101,114,118,101,95,101,110,118,105,114,111,110,109,101,110,116>>
K_preserve_groups == <<112,114,101,115,101,114,118,101,95,103,114,111,117,112,115>>
K_prompt == <<112,114,111,109,112,116>>
K_remote_host == <<114,101,109,111,116,101,95,104,111,115,116>>
K_run_shell == <<114,117,110,95,115,104,101,108,108>>
K_runas_group == <<114,117,110,97,115,95,103,114,111,117,112>>
K_runas_user == <<114,117,110,97,115,95,117,115,101,114>>
K_selinux_role == <<115,101,108,105,110,117,120,95,114,111,108,101>>
K_selinux_type == <<115,101,108,105,110,117,120,95,116,121,112,101>>
K_set_home == <<115,101,116,95,104,111,109,101>>
K_sudoedit == <<115,117,100,111,101,100,105,116>>
K_timeout == <<116,105,109,101,111,117,116>>
K_cwd == <<99,119,100>>
K_egid == <<101,103,105,100>>
K_euid == <<101,117,105,100>>
K_gid == <<103,105,100>>
K_groups == <<103,114,111,117,112,115>>
K_host == <<104,111,115,116>>
K_pgid == <<112,103,105,100>>
K_pid == <<112,105,100>>
K_ppid == <<112,112,105,100>>
K_uid == <<117,105,100>>
K_user == <<117,115,101,114>>
K_umask == <<117,109,97,115,107>>
K_cols == <<99,111,108,115>>
K_lines == <<108,105,110,101,115>>
K_sid == <<115,105,100>>
K_tcpgid == <<116,99,112,103,105,100>>
K_tty == <<116,116,121>>
K_chroot == <<99,104,114,111,111,116>>
K_command == <<99,111,109,109,97,110,100>>
K_exec_background == <<101,120,101,99,95,98,97,99,107,103,114,111,117,110,100>>
K_execfd == <<101,120,101,99,102,100>>
K_iolog_compress == <<105,111,108,111,103,95,99,111,109,112,114,101,115,115>>
K_iolog_group == <<105,111,108,111,103,95,103,114,111,117,112>>
K_iolog_mode == <<105,111,108,111,103,95,109,111,100,101>>
K_iolog_path == <<105,111,108,111,103,95,112,97,116,104>>
K_iolog_stdin == <<105,111,108,111,103,95,115,116,100,105,110>>
K_iolog_stdout == <<105,111,108,111,103,95,115,116,100,111,117,116>>
K_iolog_stderr == <<105,111,108,111,103,95,115,116,100,101,114,114>>
K_iolog_ttyin == <<105,111,108,111,103,95,116,116,121,105,110>>
K_iolog_ttyout == <<105,111,108,111,103,95,116,116,121,111,117,116>>
K_iolog_user == <<105,111,108,111,103,95,117,115,101,114>>
K_nice == <<110,105,99,101>>
K_noexec == <<110,111,101,120,101,99>>
K_preserve_fds == <<112,114,101,115,101,114,118,101,95,102,100,115>>
K_runas_egid == <<114,117,110,97,115,95,101,103,105,100>>
K_runas_euid == <<114,117,110,97,115,95,101,117,105,100>>
K_runas_gid == <<114,117,110,97,115,95,103,105,100>>
K_runas_groups == <<114,117,110,97,115,95,103,114,111,117,112,115>>
K_runas_uid == <<114,117,110,97,115,95,117,105,100>>
K_set_utmp == <<115,101,116,95,117,116,109,112>>
K_sudoedit_checkdir == <<115,117,100,111,101,100,105,116,95,99,104,101,99,107,100,105,114>>
K_sudoedit_follow == <<115,117,100,111,101,100,105,116,95,102,111,108,108,111,119>>
K_umask_override == <<117,109,97,115,107,95,111,118,101,114,114,105,100,101>>
K_use_pty == <<117,115,101,95,112,116,121>>
K_utmp_user == <<117,116,109,112,95,117,115,101,114>>
K_binary_path == <<98,105,110,97,114,121,95,112,97,116,104>>
K_user_prompt_path == <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104>>
K_pair_prompt_path == <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104>>
K_socket_dir == <<115,111,99,107,101,116,95,100,105,114>>
K_gids_enforced == <<103,105,100,115,95,101,110,102,111,114,99,101,100>>
K_gids_exempted == <<103,105,100,115,95,101,120,101,109,112,116,101,100>>
L_true == <<116,114,117,101>>
L_false == <<102,97,108,115,101>>
L_D80 == <<56,48>>
L_D24 == <<50,52>>
L_D0 == <<48>>
L_Dm1 == <<45,49>>
L_MaxU32 == <<52,50,57,52,57,54,55,50,57,53>>
L_MaxU8 == <<50,53,53>>
L_MaxI8 == <<49,50,55>>
L_MinI8 == <<49,50,56>>
L_MaxU16 == <<54,53,53,51,53>>
L_MaxI16 == <<51,50,55,54,55>>
L_MinI16 == <<51,50,55,54,56>>
L_MaxI32 == <<50,49,52,55,52,56,51,54,52,55>>
L_MinI32 == <<50,49,52,55,52,56,51,54,52,56>>
L_MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
L_MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
L_MinI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
L_DefBinary == <<47,117,115,114,47,98,105,110,47,115,117,100,111,95,97,112,112,114,111,118,101>>
L_DefUserPrompt == <<47,101,116,99,47,115,117,100,111,95,112,97,105,114,46,112,114,111,109,112,116,46,117,115,101,114>>
L_DefPairPrompt == <<47,101,116,99,47,115,117,100,111,95,112,97,105,114,46,112,114,111,109,112,116,46,112,97,105,114>>
L_DefDir == <<47,118,97,114,47,114,117,110,47,115,117,100,111,95,112,97,105,114>>
L_DotSock == <<46,115,111,99,107>>
L_UserPrompt == <<37,66,32,37,117,32,37,112,10>>
L_PairPrompt == <<37,85,64,37,104,58,37,100,36,32,37,67,10,121,47,110,63,32,91,110,93,58,32>>
L_Resize == <<27,91,56,59>>
L_sudoedit_ == <<115,117,100,111,101,100,105,116>>
L_fEdit == <<45,45,101,100,105,116>>
L_fUser == <<45,45,117,115,101,114,32>>
L_fGroup == <<45,45,103,114,111,117,112,32>>
L_fPrompt == <<45,45,112,114,111,109,112,116,32>>
L_fLogin == <<45,45,108,111,103,105,110>>
L_fShell == <<45,45,115,104,101,108,108>>
L_fHome == <<45,45,115,101,116,45,104,111,109,101>>
L_fPEnv == <<45,45,112,114,101,115,101,114,118,101,45,101,110,118>>
L_fPGrp == <<45,45,112,114,101,115,101,114,118,101,45,103,114,111,117,112,115>>
L_fReset == <<45,45,114,101,115,101,116,45,116,105,109,101,115,116,97,109,112>>
L_fNonI == <<45,45,110,111,110,45,105,110,116,101,114,97,99,116,105,118,101>>
L_fClass == <<45,45,108,111,103,105,110,45,99,108,97,115,115,32>>
L_fRole == <<45,45,114,111,108,101,32>>
L_fType == <<45,45,116,121,112,101,32>>
L_fAuth == <<45,45,97,117,116,104,45,116,121,112,101,32>>
L_fClose == <<45,45,99,108,111,115,101,45,102,114,111,109,32>>
L_Tag == <<115,117,100,111,95,112,97,105,114,58,32>>
L_Name == <<115,117,100,111,95,112,97,105,114>>
L_V19 == <<49,46,57>>
L_LF == <<10>>
L_DevFull == <<47,100,101,118,47,102,117,108,108>>
L_D4095 == <<52,48,57,53>>
L_D7777 == <<55,55,55,55>>
L_MaxOct == <<51,55,55,55,55,55,55,55,55,55,55>>
L_ProbeTag == <<112,114,111,98,101,58,32>>
L_ProbeName == <<112,114,111,98,101>>
L_Version == <<32,118,101,114,115,105,111,110,32>>
====
