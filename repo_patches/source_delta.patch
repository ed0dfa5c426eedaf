From 88374ac5f237bf0893a4feb92fa7f99fd4c595cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 01/13] fix: never use printed text as a printf format string

PrintFacility handed the text itself to sudo's printf as the format, so
any `%` directive in it (from arguments, prompts or error values) was
interpreted, which crashes sudo or writes to memory.
---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..4a6256c 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -109,7 +109,10 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            //
+            // the message must never be used as the format string itself
+            // since it may contain text under the control of the user
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From 4603324e77925b63a5bc36278af385be69e1dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 02/13] fix: print each cause of an error once instead of
 looping forever

The loop variable shadowed the error, so the first cause of an error was
printed over and over again and sudo hung.
---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 4a6256c..e858371 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,11 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
+        let mut source = error.source();
+
+        while let Some(error) = source {
             self.write_line(format!("{}", error).as_bytes())?;
+            source = error.source();
         }
 
         Ok(())
-- 
2.43.0


From 7db1aec5411de748a369c18fab68c90a570e7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 03/13] fix: a command path that is not UTF-8 is still a
 command

Such a path was read as no command at all, which is how a version query
looks, so the command was allowed to run without a pair.
---
 sudo_plugin/src/options/command_info.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..f828426 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -16,6 +16,8 @@ use crate::errors::{Result, Error};
 use crate::options::OptionMap;
 
 use std::convert::TryFrom;
+use std::ffi::OsStr;
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::io::RawFd;
 use std::path::PathBuf;
 
@@ -248,7 +250,12 @@ impl TryFrom<OptionMap> for CommandInfo {
         Ok(Self {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
-            command:       value.get("command").unwrap_or_default(),
+            //
+            // the path may be any sequence of bytes; it must not be
+            // mistaken for a missing command if it isn't valid UTF-8
+            command:       value.get_bytes(b"command")
+                .map(|path| OsStr::from_bytes(path).into())
+                .unwrap_or_default(),
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
-- 
2.43.0


From e1ba62e67103e7cfba90519860c24177b6bd38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 04/13] fix: refuse piped stdin and mirror all output
 regardless of log hints

With the documented `Defaults log_output`, sudo doesn't ask for input to
be logged, so the stdin callback was skipped and piped input accepted in
paired sessions. Likewise a stream with its own hint off wasn't mirrored.
---
 sudo_pair/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..214b993 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,10 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // stdin must be refused and output must be mirrored in every paired
+    // session, no matter which streams the policy asks to be logged
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
-- 
2.43.0


From 28194550fb6fb90ff7024d1d96e52e607ef71871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 05/13] fix: report the version of sudo_pair rather than that
 of sudo_plugin

---
 sudo_pair/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 214b993..56ba009 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,9 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // the default is the version of the `sudo_plugin` crate
+    const VERSION: &'static str = env!("CARGO_PKG_VERSION");
+
     // stdin must be refused and output must be mirrored in every paired
     // session, no matter which streams the policy asks to be logged
     const IGNORE_IOLOG_HINTS: bool = true;
-- 
2.43.0


From e1a21ea2d60d5d5f8d2ade7394a8bc3b42e0941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 06/13] fix: an explicit group whose name is not UTF-8 is still
 explicit

It was treated as if `-g` hadn't been given, which bypassed the refusal
of `-u` together with `-g`.
---
 sudo_pair/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 56ba009..0541de0 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -556,7 +556,10 @@ impl SudoPair {
 
     // returns true if `-g` was specified
     fn is_sudoing_to_explicit_group(&self) -> bool {
-        self.env.settings.runas_group.is_some()
+        //
+        // this looks at the raw setting, since a group whose name isn't
+        // valid UTF-8 has been specified nonetheless
+        self.env.settings.raw.get_bytes(b"runas_group").is_some()
     }
 
     fn socket_path(&self) -> PathBuf {
-- 
2.43.0


From 850ec9b67818b2eea596bb52017cb407e62962a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 07/13] fix: an address without a netmask is an error, not a
 panic

---
 sudo_plugin/src/options/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..508b484 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -328,7 +328,7 @@ impl FromSudoOption for NetAddr {
             .unwrap_or_else(|| bytes.len());
 
         let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+        let mask = s.get(mid + 1 ..).unwrap_or_default().parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From cb5908b1ae998307a653ef8d0073101bf1eb6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 08/13] fix: reject approval arguments that are not plain
 numbers

Assigning to an integer variable evaluates the value as arithmetic, in
which an array subscript may run arbitrary commands, and this script is
exempt from pairing.
---
 sample/bin/sudo_approve | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index ec412ef..5e0b17f 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -50,6 +50,11 @@ usage() {
 
 main() {
     declare -r socket_path="${1}"
+
+    # anything other than plain numbers must be rejected here, since bash
+    # evaluates the values of integer variables as arithmetic expressions
+    [[ "${2}" =~ ^[0-9]+$ && "${3}" =~ ^[0-9]+$ ]] || usage
+
     declare -ri uid="${2}"
     declare -ri pid="${3}"
 
-- 
2.43.0


From a7a3a13cba27296a5e82b4207e469915f8828961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 09/13] fix: a symbolic link at the socket path is not a stale
 socket

An object at the socket path that isn't a socket must be left alone, but
the check followed symbolic links, so a link to any socket was removed.
---
 sudo_pair/src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index eaf45c6..28408be 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -129,7 +129,7 @@ impl Socket {
     }
 
     fn unlink(path: &Path) -> Result<()> {
-        match fs::metadata(&path).map(|md| md.file_type().is_socket()) {
+        match fs::symlink_metadata(&path).map(|md| md.file_type().is_socket()) {
             // file exists, is a socket; delete it
             Ok(true) => fs::remove_file(path),
 
-- 
2.43.0


From 5577fcb7ac262f7055c3ee652cf795852a160773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 10/13] fix: waiting for a pair works with descriptors of 1024
 and above

select(2) can't wait for such descriptors: adding one to an fd_set
panics, which left the approval socket and sudo's umask behind.
---
 sudo_pair/src/socket.rs | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index 28408be..4840c20 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -25,7 +25,6 @@ use std::os::unix::prelude::*;
 use std::os::unix::net::{UnixListener, UnixStream};
 use std::mem;
 use std::path::Path;
-use std::ptr;
 
 use libc::{self, gid_t, mode_t, uid_t};
 
@@ -69,36 +68,20 @@ impl Socket {
                     return Err(Error::last_os_error());
                 }
 
-                let     fd      = listener.as_raw_fd();
-                let mut readfds = mem::MaybeUninit::<libc::fd_set>::uninit();
-
-                libc::FD_ZERO(readfds.as_mut_ptr());
-
-                let mut readfds = readfds.assume_init();
-
-                libc::FD_SET(fd, &mut readfds);
-
                 // rust automatically wraps the `accept()` function in a
                 // loop that retries on SIGINT, so we have to get
-                // creative here and `select(2)` ourselves if we want
-                // Ctrl-C to interrupt the process
-                match libc::select(
-                    fd + 1, // this must be greater than the fd's int value
-                    &mut readfds,
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                ) {
-                    1  => (),
-                    -1 => return Err(Error::last_os_error()),
-                    0  => unreachable!("`select` returned 0 even though no timeout was set"),
-                    _  => unreachable!("`select` indicated that more than 1 fd is ready"),
+                // creative here and `poll(2)` ourselves if we want
+                // Ctrl-C to interrupt the process; `select(2)` won't
+                // do, since it can't wait for descriptors of 1024 and
+                // above
+                let mut pollfd = libc::pollfd {
+                    fd:      listener.as_raw_fd(),
+                    events:  libc::POLLIN,
+                    revents: 0,
                 };
 
-                // as a sanity check, confirm that the fd we're going to
-                // `accept` is the one that `select` says is ready
-                if !libc::FD_ISSET(fd, &readfds) {
-                    unreachable!("`select` returned an unexpected file descriptor");
+                if libc::poll(&mut pollfd, 1, -1) == -1 {
+                    return Err(Error::last_os_error());
                 }
             }
 
-- 
2.43.0


From beac9b0ff802ae0da77bef820fcc9b9740d6d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 11/13] fix: read the command's umask in octal, as sudo passes
 it

---
 sudo_plugin/src/options/command_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index f828426..599a450 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -260,7 +260,10 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+            // file modes are given in octal
+            umask:         value.get_str("umask")
+                .and_then(|umask| mode_t::from_str_radix(umask, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From a7a011a94d0403a1d17f97143b220dcfb8c02ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 12/13] fix: a panic while converting a plugin's error stays
 inside the plugin

---
 sudo_plugin/src/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..6bf320c 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -124,7 +124,9 @@ fn catch_unwind_open<T: std::fmt::Debug + Into<OpenStatus>, F: FnOnce() -> T + U
 }
 
 fn catch_unwind_log<T: Into<LogStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<LogStatus>::into(catch_unwind(f)) as _
+    // the conversion of the plugin's error is plugin code, too, and must
+    // not be allowed to unwind into sudo
+    Into::<LogStatus>::into(catch_unwind(|| Into::<LogStatus>::into(f()))) as _
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 0e236b90f051105808ce4ac6aa90b3db992d9fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:58 +0000
Subject: [PATCH 13/13] fix: an invocation without an argument vector doesn't
 abort sudo

---
 sudo_plugin/src/plugin/io_env.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sudo_plugin/src/plugin/io_env.rs b/sudo_plugin/src/plugin/io_env.rs
index ba078d7..3bf6393 100644
--- a/sudo_plugin/src/plugin/io_env.rs
+++ b/sudo_plugin/src/plugin/io_env.rs
@@ -121,12 +121,19 @@ impl IoEnv {
             plugin_printf
         );
 
+        // sudo may pass no vector at all when it's invoked with `-V`, and
+        // a slice must not be made from a null pointer even if it's empty
+        //
         // god help us all if `argc` is negative
         #[allow(clippy::cast_sign_loss)]
-        let mut argv = slice::from_raw_parts(
-            argv,
-            argc as usize
-        ).to_vec();
+        let mut argv = if argv.is_null() {
+            vec![]
+        } else {
+            slice::from_raw_parts(
+                argv,
+                argc as usize
+            ).to_vec()
+        };
 
         let cmdline = argv
             .iter_mut()
-- 
2.43.0

