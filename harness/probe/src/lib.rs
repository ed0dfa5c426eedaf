//! Two plugins built on the framework.  They do what a script says and report every call they get.
#![allow(static_mut_refs)]
use sudo_plugin::prelude::*;
use std::collections::HashSet;
use std::error::Error as StdError;
use std::ffi::CStr;
use std::fmt;
use std::io::Write;
use std::os::raw::{c_char, c_uint};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;

/// the plugin's own version, which is neither the crate's nor the framework's
const VERSION: &str = "9.8.7-probe";

// ---- what the host gives us ------------------------------------------------------------------
type Emit = extern "C" fn(*const c_char, *const u8, c_uint);
static mut EMIT: Option<Emit> = None;
static mut SCRIPT: Vec<String> = Vec::new();
static mut NEXT: usize = 0;
static mut FACTS: bool = false;
static mut KEYS: Vec<Vec<u8>> = Vec::new();
static mut COUNT: u32 = 0;

fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches('x').as_bytes();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
/// script: `facts|-` `keys|-` action*
#[no_mangle]
pub unsafe extern "C" fn vh_hook(emit: Emit, script: *const c_char) {
    EMIT = Some(emit);
    let s = CStr::from_ptr(script).to_str().unwrap();
    let mut w = s.split_whitespace();
    FACTS = w.next() == Some("facts");
    KEYS = w.next().unwrap_or("-").split(',').filter(|k| *k != "-").map(unhex).collect();
    SCRIPT = w.map(str::to_owned).collect();
    NEXT = 0;
    COUNT = 0;
}
fn emit(name: &str, body: String) {
    let n = format!("{}\0", name);
    unsafe { (EMIT.unwrap())(n.as_ptr().cast(), body.as_ptr(), body.len() as c_uint) }
}

// ---- json ------------------------------------------------------------------------------------
fn by(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn rle(b: &[u8]) -> String {
    let mut o: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] { j += 1 }
        o.push(format!("[{},{}]", b[i], j - i));
        i = j;
    }
    format!("[{}]", o.join(","))
}
fn num<T: ToString>(n: T) -> String { by(n.to_string().as_bytes()) }
fn path(p: &std::path::Path) -> String { by(p.as_os_str().as_bytes()) }
fn opt(v: Option<String>) -> String {
    match v { Some(v) => format!("{{\"ok\":true,\"v\":{}}}", v), None => "{\"ok\":false,\"v\":[]}".into() }
}
fn optb(v: Option<bool>) -> String { format!("{{\"ok\":{},\"v\":{}}}", v.is_some(), v.unwrap_or(false)) }
fn list(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn strings<T: ToString>(v: &[T]) -> Vec<String> { v.iter().map(|x| by(x.to_string().as_bytes())).collect() }
fn ip(a: std::net::IpAddr) -> String {
    match a {
        std::net::IpAddr::V4(a) => format!("[{}]", a.octets().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        std::net::IpAddr::V6(a) => format!("[{}]", a.segments().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
    }
}
struct Rec(Vec<String>);
impl Rec {
    fn f(&mut self, k: &str, v: String) { self.0.push(format!("\"{}\":{}", k, v)) }
    fn s(&mut self, k: &str, v: &Option<String>) { self.f(k, opt(v.as_ref().map(|v| by(v.as_bytes())))) }
    fn n(&mut self, k: &str, v: Option<u64>) { self.f(k, opt(v.map(num))) }
    fn b(&mut self, k: &str, v: bool) { self.f(k, v.to_string()) }
    fn end(self) -> String { format!("{{{}}}", self.0.join(",")) }
}

fn facts(env: &IoEnv) {
    let s = &env.settings;
    let mut r = Rec(vec![]);
    r.s("bsd_auth_type", &s.bsd_auth_type); r.n("close_from", s.close_from); r.s("debug_flags", &s.debug_flags); r.n("debug_level", s.debug_level);
    r.b("ignore_ticket", s.ignore_ticket); r.b("implied_shell", s.implied_shell); r.s("login_class", &s.login_class); r.b("login_shell", s.login_shell);
    r.n("max_groups", s.max_groups);
    r.f("network_addrs", list(s.network_addrs.iter().map(|a| format!("[{},{}]", ip(a.addr), ip(a.mask))).collect()));
    r.b("noninteractive", s.noninteractive); r.f("plugin_dir", by(s.plugin_dir.as_bytes())); r.f("plugin_path", by(s.plugin_path.as_bytes()));
    r.b("preserve_environment", s.preserve_environment); r.b("preserve_groups", s.preserve_groups); r.f("progname", by(s.progname.as_bytes()));
    r.s("prompt", &s.prompt); r.s("remote_host", &s.remote_host); r.b("run_shell", s.run_shell); r.s("runas_group", &s.runas_group); r.s("runas_user", &s.runas_user);
    r.s("selinux_role", &s.selinux_role); r.s("selinux_type", &s.selinux_type); r.b("set_home", s.set_home); r.b("sudoedit", s.sudoedit); r.s("timeout", &s.timeout);
    let set = r.end();
    let u = &env.user_info;
    let mut r = Rec(vec![]);
    r.f("cols", num(u.cols)); r.f("cwd", path(&u.cwd)); r.f("egid", num(u.egid)); r.f("euid", num(u.euid)); r.f("gid", num(u.gid)); r.f("groups", list(strings(&u.groups)));
    r.f("host", by(u.host.as_bytes())); r.f("lines", num(u.lines)); r.f("pgid", num(u.pgid)); r.f("pid", num(u.pid)); r.f("ppid", num(u.ppid)); r.f("sid", num(u.sid));
    r.f("tcpgid", num(u.tcpgid)); r.f("tty", opt(u.tty.as_ref().map(|p| path(p)))); r.f("uid", num(u.uid)); r.s("umask", &u.umask); r.f("user", by(u.user.as_bytes()));
    let usr = r.end();
    let c = &env.command_info;
    let mut r = Rec(vec![]);
    r.s("chroot", &c.chroot); r.n("close_from", c.close_from); r.f("command", path(&c.command)); r.f("cwd", opt(c.cwd.as_ref().map(|p| path(p))));
    r.b("exec_background", c.exec_background); r.n("exec_fd", c.exec_fd); r.b("iolog_compress", c.iolog_compress); r.s("iolog_group", &c.iolog_group);
    r.s("iolog_mode", &c.iolog_mode); r.s("iolog_path", &c.iolog_path); r.b("iolog_stdin", c.iolog_stdin); r.b("iolog_stdout", c.iolog_stdout); r.b("iolog_stderr", c.iolog_stderr);
    r.b("iolog_ttyin", c.iolog_ttyin); r.b("iolog_ttyout", c.iolog_ttyout); r.s("iolog_user", &c.iolog_user); r.s("login_class", &c.login_class); r.n("nice", c.nice);
    r.b("noexec", c.noexec); r.f("preserve_fds", list(strings(&c.preserve_fds))); r.b("preserve_groups", c.preserve_groups); r.f("runas_egid", num(c.runas_egid));
    r.f("runas_euid", num(c.runas_euid)); r.f("runas_gid", num(c.runas_gid)); r.f("runas_groups", opt(c.runas_groups.as_ref().map(|g| list(strings(g))))); r.f("runas_uid", num(c.runas_uid));
    r.s("selinux_role", &c.selinux_role); r.s("selinux_type", &c.selinux_type); r.b("set_utmp", c.set_utmp); r.b("sudoedit", c.sudoedit); r.b("sudoedit_checkdir", c.sudoedit_checkdir);
    r.b("sudoedit_follow", c.sudoedit_follow); r.n("timeout", c.timeout); r.f("umask", by(format!("{:o}", c.umask).as_bytes())); r.f("umask_override", optb(c.umask_override));
    r.b("use_pty", c.use_pty); r.s("utmp_user", &c.utmp_user);
    let cmd = r.end();
    let mut r = Rec(vec![]);
    r.f("api", by(env.api_version.to_string().as_bytes())); r.f("name", by(env.plugin_name.as_bytes())); r.f("ver", by(env.plugin_version.as_bytes()));
    r.f("argv", list(env.cmdline.iter().map(|a| by(a.as_bytes())).collect())); r.f("invocation", by(&env.invocation())); r.f("cwd", path(env.cwd()));
    let mut g: Vec<u32> = env.runas_gids().into_iter().collect(); g.sort_unstable();
    r.f("gids", list(strings(&g)));
    emit("facts", format!("\"set\":{},\"usr\":{},\"cmd\":{},\"etc\":{}", set, usr, cmd, r.end()));
}
fn gets(map: &str, m: &OptionMap) {
    for k in unsafe { &KEYS } {
        let mut r = Rec(vec![]);
        r.f("raw", opt(m.get_bytes(k).map(by)));
        if let Ok(k) = std::str::from_utf8(k) {
            r.f("str", opt(m.get_str(k).map(|s| by(s.as_bytes()))));
            r.f("bool", optb(m.get::<bool>(k).ok()));
            r.f("string", opt(m.get::<String>(k).ok().map(|s| by(s.as_bytes()))));
            r.f("path", opt(m.get::<PathBuf>(k).ok().map(|p| path(&p))));
            macro_rules! ints { ($($t:ident)*) => { $(
                r.f(stringify!($t), opt(m.get::<$t>(k).ok().map(num)));
                r.f(concat!("v", stringify!($t)), opt(m.get::<Vec<$t>>(k).ok().map(|v| list(strings(&v)))));
                r.f(concat!("h", stringify!($t)), opt(m.get::<HashSet<$t>>(k).ok().map(|v| { let mut v: Vec<$t> = v.into_iter().collect(); v.sort_unstable(); list(strings(&v)) })));
            )* } }
            ints!(u8 u16 u32 u64 i8 i16 i32 i64);
            r.f("vpath", opt(m.get::<Vec<PathBuf>>(k).ok().map(|v| list(v.iter().map(|p| path(p)).collect()))));
        }
        emit("get", format!("\"m\":\"{}\",\"k\":{},\"u\":{},\"g\":{}", map, by(k), std::str::from_utf8(k).is_ok(), r.end()));
    }
}

/// the session's environment is still what it was
fn still(env: &IoEnv) {
    let mut g: Vec<u32> = env.runas_gids().into_iter().collect(); g.sort_unstable();
    emit("still", format!("\"host\":{},\"user\":{},\"cwd\":{},\"command\":{},\"argv\":{},\"gids\":{},\"invocation\":{},\"raw\":{}", by(env.user_info.host.as_bytes()), by(env.user_info.user.as_bytes()), path(env.cwd()),
        path(&env.command_info.command), list(env.cmdline.iter().map(|a| by(a.as_bytes())).collect()), list(strings(&g)), by(&env.invocation()), opt(env.settings.raw.get_bytes(b"plugin_path").map(by))));
}

// ---- errors ----------------------------------------------------------------------------------
/// an error with causes, whose conversion is chosen by the script
#[derive(Debug)]
pub struct PErr { text: String, o: i32, l: i32, boom: u8, source: Option<Box<PErr>> }
impl fmt::Display for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.boom == 1 { panic!("while displaying an error") }
        f.write_str(&self.text)
    }
}
impl StdError for PErr {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        if self.boom == 2 { panic!("while asking for a cause") }
        self.source.as_ref().map(|e| &**e as _)
    }
}
impl From<Error> for PErr { fn from(e: Error) -> Self { PErr { text: e.to_string(), o: -2, l: -1, boom: 0, source: None } } }
impl From<PErr> for OpenStatus {
    fn from(e: PErr) -> Self {
        if e.boom == 3 { panic!("while converting an error") }
        match e.o { 1 => OpenStatus::Ok, 0 => OpenStatus::Disable, -2 => OpenStatus::Usage, _ => OpenStatus::Deny }
    }
}
impl From<PErr> for LogStatus {
    fn from(e: PErr) -> Self {
        if e.boom == 3 { panic!("while converting an error") }
        match e.l { 1 => LogStatus::Ok, 0 => LogStatus::Deny, _ => LogStatus::Disable }
    }
}
fn chain(texts: &[Vec<u8>], o: i32, l: i32, boom: u8) -> PErr {
    let mut e: Option<Box<PErr>> = None;
    for t in texts.iter().rev() { e = Some(Box::new(PErr { text: String::from_utf8_lossy(t).into_owned(), o, l, boom, source: e })) }
    *e.unwrap()
}
/// how a plugin's error type is made from the script
trait Make: Sized { const OWN: bool; fn make(texts: &[Vec<u8>], o: i32, l: i32, boom: u8) -> Self; }
impl Make for PErr { const OWN: bool = true; fn make(t: &[Vec<u8>], o: i32, l: i32, boom: u8) -> Self { chain(t, o, l, boom) } }
impl Make for Error { const OWN: bool = false; fn make(t: &[Vec<u8>], _: i32, _: i32, _: u8) -> Self { Error::Other(String::from_utf8_lossy(&t[0]).into_owned()) } }

// ---- the script ------------------------------------------------------------------------------
struct Odd(#[allow(dead_code)] Vec<u8>);
fn take() -> String { unsafe { NEXT += 1; SCRIPT.get(NEXT - 1).cloned().unwrap_or_else(|| "ok".into()) } }
/// reports a call and does what the script says next
fn act<E: Make>(what: &str, i: u32, more: String, env: &IoEnv) -> Result<(), E> {
    let a = take();
    let p: Vec<&str> = a.split(':').collect();
    let say = |k: &str, o: i32, l: i32, t: &[Vec<u8>]| emit("m", format!("\"m\":\"{}\",\"i\":{}{},\"a\":{{\"k\":\"{}\",\"o\":{},\"l\":{},\"t\":{}}}", what, i, more, k, o, l, list(t.iter().map(|b| by(b)).collect())));
    match p[0] {
        "e" => {
            let (o, l) = (p[1].parse().unwrap(), p[2].parse().unwrap());
            let mut t: Vec<Vec<u8>> = p[3].split(',').map(unhex).collect();
            if E::OWN { say("err", o, l, &t) } else { t.truncate(1); say("err", -1, 0, &t) }
            Err(E::make(&t, o, l, 0))
        }
        "x" => { // an error that panics when displayed (1), asked for its cause (2) or converted (3)
            if E::OWN { say("panic", 0, 0, &[]); Err(E::make(&[b"outer".to_vec(), b"inner".to_vec()], -1, 0, p[1].parse().unwrap())) }
            else { say("ok", 0, 0, &[]); Ok(()) }
        }
        "p" => {
            say("panic", 0, 0, &[]);
            match p[1] {
                "str" => panic!("a panic"),
                "string" => panic!("{}", String::from_utf8_lossy(&[37, 115, 37, 110])),
                "any" => std::panic::panic_any(Odd(vec![0; 100])),
                "index" => { let v: Vec<u8> = Vec::new(); let n = what.len(); let _ = v[n]; }
                "unwrap" => { let v: Option<u8> = if what.is_empty() { Some(1) } else { None }; let _ = v.unwrap(); }
                "resume" => std::panic::resume_unwind(Box::new(7u8)),
                "catch" => { let _ = std::panic::catch_unwind(|| panic!("inner")); panic!("outer") }
                "thread" => { let _ = std::thread::Builder::new().spawn(|| panic!("elsewhere")).unwrap().join(); panic!("here") }
                _ => panic!("?"),
            }
            Ok(())
        }
        "w" => { // writes text: w:i|e:HEX, pretty-printed with l instead of w
            let t = unhex(p[2]);
            let lv = if p[1] == "i" { 4 } else { 3 };
            say("print", lv, 0, &[t.clone()]);
            let mut f = if p[1] == "i" { env.stdout() } else { env.stderr() };
            let _ = f.write_all(&t);
            let _ = f.flush();
            Ok(())
        }
        "l" => {
            let t = unhex(p[2]);
            let lv = if p[1] == "i" { 4 } else { 3 };
            say("line", lv, 0, &[t.clone()]);
            let mut f = if p[1] == "i" { env.stdout() } else { env.stderr() };
            let _ = f.write_line(&t);
            Ok(())
        }
        _ => { say("ok", 0, 0, &[]); Ok(()) }
    }
}

macro_rules! methods {
    ($E:ty) => {
        fn open(env: &'static IoEnv) -> Result<Self, $E> {
            if unsafe { FACTS } { facts(env); gets("opt", &env.plugin_options); gets("env", &env.user_env); gets("set", &env.settings.raw); gets("usr", &env.user_info.raw); gets("cmd", &env.command_info.raw); }
            let id = unsafe { COUNT += 1; COUNT };
            act::<$E>("open", id, String::new(), env)?;
            Ok(Self { id, env, dropboom: false })
        }
        fn log_ttyin (&self, b: &[u8]) -> Result<(), $E> { act("ttyin",  self.id, format!(",\"d\":{}", rle(b)), self.env) }
        fn log_ttyout(&self, b: &[u8]) -> Result<(), $E> { act("ttyout", self.id, format!(",\"d\":{}", rle(b)), self.env) }
        fn log_stdin (&self, b: &[u8]) -> Result<(), $E> { act("stdin",  self.id, format!(",\"d\":{}", rle(b)), self.env) }
        fn log_stdout(&self, b: &[u8]) -> Result<(), $E> { act("stdout", self.id, format!(",\"d\":{}", rle(b)), self.env) }
        fn log_stderr(&self, b: &[u8]) -> Result<(), $E> { act("stderr", self.id, format!(",\"d\":{}", rle(b)), self.env) }
        fn change_winsize(&self, l: u64, c: u64) -> Result<(), $E> { act("winsize", self.id, format!(",\"x\":{},\"y\":{}", num(l), num(c)), self.env) }
    }
}

/// errors of its own, hints respected, version as the framework shows it
pub struct ProbeA { id: u32, env: &'static IoEnv, dropboom: bool }
sudo_io_plugin! { probe_a : ProbeA }
impl IoPlugin for ProbeA {
    type Error = PErr;
    const NAME: &'static str = "probe";
    const VERSION: &'static str = VERSION;
    methods!(PErr);
    fn close(mut self, x: i32, y: i32) {
        still(self.env);
        self.dropboom = unsafe { SCRIPT.get(NEXT).map(String::as_str) == Some("d") };
        let _ = act::<PErr>("close", self.id, format!(",\"x\":{},\"y\":{}", num(x), num(y)), self.env);
    }
}
impl Drop for ProbeA {
    fn drop(&mut self) {
        still(self.env);
        emit("m", format!("\"m\":\"drop\",\"i\":{},\"a\":{{\"k\":\"ok\"}}", self.id));
        if self.dropboom && !std::thread::panicking() { panic!("while being dropped") }
    }
}

/// the framework's errors, hints ignored, its own version method, nothing to do on close
pub struct ProbeB { id: u32, env: &'static IoEnv, dropboom: bool }
sudo_io_plugin! { probe_b : ProbeB }
impl IoPlugin for ProbeB {
    type Error = Error;
    const NAME: &'static str = "probe";
    const VERSION: &'static str = VERSION;
    const IGNORE_IOLOG_HINTS: bool = true;
    methods!(Error);
    fn show_version(env: &IoEnv, verbose: bool) { let _ = act::<Error>("version", 0, format!(",\"x\":{}", verbose), env); }
}
impl Drop for ProbeB {
    fn drop(&mut self) {
        still(self.env);
        emit("m", format!("\"m\":\"drop\",\"i\":{},\"a\":{{\"k\":\"ok\"}}", self.id));
        if self.dropboom { panic!("while being dropped") }
    }
}
