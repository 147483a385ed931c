//! Running the command-line tool in scratch directories.

use std::ffi::OsStr;
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_AS: i32 = 9;
const RLIMIT_STACK: i32 = 3;
const RLIMIT_CORE: i32 = 4;

/// Limit a child's processor time (seconds) and address space (bytes).
pub fn limit(cmd: &mut Command, cpu: u64, space: u64) {
    unsafe {
        cmd.pre_exec(move || {
            let set = |r: i32, v: u64| {
                let l = Rlimit { cur: v, max: v };
                setrlimit(r, &l);
            };
            set(RLIMIT_CPU, cpu);
            set(RLIMIT_CORE, 0);
            set(RLIMIT_STACK, 8 << 20);
            if space > 0 {
                set(RLIMIT_AS, space);
            }
            Ok(())
        });
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn how(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "unknown end".into(),
        }
    }
    /// A clean failure: exit code 1 and a message.
    pub fn clean_failure(&self) -> bool {
        self.code == Some(1) && !self.stderr.is_empty()
    }
}

pub fn tool() -> PathBuf {
    PathBuf::from(std::env::var("VH_TYPICAL").expect("VH_TYPICAL"))
}

/// How many runs of the tool were ended by a signal, such as at the limit of their time.
static KILLED: AtomicU64 = AtomicU64::new(0);

pub fn run_tool(cwd: &Path, args: &[&str]) -> Run {
    run_tool_into(cwd, args, Stdio::piped())
}

pub fn run_tool_into<A: AsRef<OsStr>>(cwd: &Path, args: &[A], stdout: Stdio) -> Run {
    run_tool_with(cwd, args, stdout, false)
}

pub fn run_tool_with<A: AsRef<OsStr>>(cwd: &Path, args: &[A], stdout: Stdio, colours: bool) -> Run {
    let mut c = Command::new(tool());
    c.args(args).current_dir(cwd).stdin(Stdio::null()).env("NO_COLOR", "true").env_remove("RUST_BACKTRACE");
    if colours {
        c.env_remove("NO_COLOR").env("CLICOLOR_FORCE", "1");
    }
    c.stdout(stdout).stderr(Stdio::piped());
    // Where many are ended there is a violation in any case, and it should not take too long to be reported.
    let patience = match KILLED.load(Ordering::SeqCst) {
        0..=2 => 20,
        3..=15 => 8,
        _ => 3,
    };
    limit(&mut c, patience, 8 << 30);
    let o = c.spawn().and_then(|c| c.wait_with_output()).expect("cannot run the tool");
    if o.status.code().is_none() {
        KILLED.fetch_add(1, Ordering::SeqCst);
    }
    Run { code: o.status.code(), signal: o.status.signal(), stdout: o.stdout, stderr: o.stderr }
}

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A directory that is removed again.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("vh-{}-{n}", std::process::id()));
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn put(&self, rel: &str, content: &[u8]) {
        put(&self.0, rel, content);
    }
    pub fn read(&self, rel: &str) -> Option<Vec<u8>> {
        fs::read(self.0.join(rel)).ok()
    }
    pub fn text(&self, rel: &str) -> String {
        self.read(rel).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
    }
    pub fn clear(&self) {
        fs::remove_dir_all(&self.0).ok();
        fs::create_dir_all(&self.0).expect("scratch directory");
    }
    /// Every file below, with its contents, and every directory.
    pub fn snapshot(&self) -> Vec<(String, Option<Vec<u8>>)> {
        let mut out = vec![];
        fn go(root: &Path, p: &Path, out: &mut Vec<(String, Option<Vec<u8>>)>) {
            let mut es: Vec<PathBuf> = fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                let rel = e.strip_prefix(root).unwrap().to_string_lossy().into_owned();
                if e.is_dir() {
                    out.push((rel, None));
                    go(root, &e, out);
                } else {
                    out.push((rel, fs::read(&e).ok()));
                }
            }
        }
        go(&self.0, &self.0, &mut out);
        out
    }
}

pub fn put(root: &Path, rel: &str, content: &[u8]) {
    let p = root.join(rel);
    if let Some(d) = p.parent() {
        fs::create_dir_all(d).expect("directory");
    }
    fs::write(p, content).expect("write");
}

impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.0).ok();
    }
}
