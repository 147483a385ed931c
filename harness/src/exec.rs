//! The process that runs generated Rust code on request, and the harness's side of the conversation.

use crate::value::Val;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

pub trait TypeOps {
    fn size(&self, v: &Val) -> usize;
    fn write(&self, v: &Val, w: &mut dyn Write) -> io::Result<()>;
    /// The closure turns what was read into a `Val`.
    fn read(&self, r: &mut dyn BufRead) -> io::Result<Box<dyn FnOnce() -> Val>>;
    fn convert(&self, v: &Val) -> Val;
}

pub fn unit_array(v: Vec<()>) -> Val {
    if v.len() as u64 > crate::wire::UNIT_LIMIT {
        panic!("{BIG_UNITS}");
    }
    Val::Arr(vec![Val::Unit; v.len()])
}

pub const BIG_UNITS: &str = "harness: too many units to list";
pub const LIVELOCK: &str = "harness: the decoder keeps asking for data at the end of the input";

// ---- a counting allocator ----

pub struct Counting;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 3 << 29;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        if n > CAP {
            NOW.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(n, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l);
    }
}

// ---- messages ----

pub fn put_u64(o: &mut Vec<u8>, n: u64) {
    o.extend_from_slice(&n.to_le_bytes());
}
pub fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    put_u64(o, b.len() as u64);
    o.extend_from_slice(b);
}
pub fn put_val(o: &mut Vec<u8>, v: &Val) {
    match v {
        Val::Unit => o.push(0),
        Val::Bool(b) => {
            o.push(1);
            o.push(u8::from(*b));
        }
        Val::F64(n) => {
            o.push(2);
            put_u64(o, *n);
        }
        Val::U64(n) => {
            o.push(3);
            put_u64(o, *n);
        }
        Val::S64(n) => {
            o.push(4);
            put_u64(o, *n as u64);
        }
        Val::Bytes(b) => {
            o.push(5);
            put_bytes(o, b);
        }
        Val::Str(b) => {
            o.push(6);
            put_bytes(o, b.as_bytes());
        }
        Val::Arr(a) => {
            if a.len() > 8 && a.iter().all(|x| *x == Val::Unit) {
                o.push(10);
                put_u64(o, a.len() as u64);
            } else {
                o.push(7);
                put_u64(o, a.len() as u64);
                a.iter().for_each(|x| put_val(o, x));
            }
        }
        Val::Struct(fs) => {
            o.push(8);
            put_u64(o, fs.len() as u64);
            for f in fs {
                match f {
                    None => o.push(0),
                    Some(f) => {
                        o.push(1);
                        put_val(o, f);
                    }
                }
            }
        }
        Val::Choice(i, v, f) => {
            o.push(9);
            put_u64(o, *i as u64);
            put_val(o, v);
            match f {
                None => o.push(0),
                Some(f) => {
                    o.push(1);
                    put_val(o, f);
                }
            }
        }
    }
}

pub struct Cur<'a>(pub &'a [u8]);

impl Cur<'_> {
    pub fn u8(&mut self) -> u8 {
        let b = self.0[0];
        self.0 = &self.0[1..];
        b
    }
    pub fn u64(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u64() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    pub fn str(&mut self) -> String {
        String::from_utf8_lossy(&self.bytes()).into_owned()
    }
    pub fn val(&mut self) -> Val {
        match self.u8() {
            0 => Val::Unit,
            1 => Val::Bool(self.u8() == 1),
            2 => Val::F64(self.u64()),
            3 => Val::U64(self.u64()),
            4 => Val::S64(self.u64() as i64),
            5 => Val::Bytes(self.bytes()),
            6 => Val::Str(String::from_utf8(self.bytes()).expect("utf8")),
            7 => {
                let n = self.u64();
                Val::Arr((0..n).map(|_| self.val()).collect())
            }
            8 => {
                let n = self.u64();
                Val::Struct((0..n).map(|_| if self.u8() == 1 { Some(self.val()) } else { None }).collect())
            }
            9 => {
                let i = self.u64() as usize;
                let v = Box::new(self.val());
                let f = if self.u8() == 1 { Some(Box::new(self.val())) } else { None };
                Val::Choice(i, v, f)
            }
            10 => {
                let n = self.u64() as usize;
                Val::Arr(vec![Val::Unit; n])
            }
            t => panic!("bad tag {t}"),
        }
    }
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::Interrupted,
];

pub fn kind_name(k: io::ErrorKind) -> String {
    format!("{k:?}")
}
pub const FAULT: &str = "injected fault";
/// The kinds of errors that are injected.
pub const FAULTS: &[&str] = &["Other", "BrokenPipe", "ConnectionReset", "PermissionDenied", "TimedOut", "WouldBlock"];

fn kind_of(name: &str) -> io::ErrorKind {
    KINDS.iter().copied().find(|k| kind_name(*k) == name).unwrap_or(io::ErrorKind::Other)
}

/// How input is fed or output taken.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Io {
    /// Sizes of the pieces, in turn; empty for one piece.
    pub chunks: Vec<usize>,
    /// After this many bytes, fail with this kind of error.
    pub fault: Option<(usize, String)>,
    /// Whether that only happens once, after which everything works.
    pub once: bool,
    /// Every so many calls are interrupted, if this is more than one.
    pub interrupts: u64,
    /// Whether that includes the reader's own buffering (and not only reading into a buffer).
    pub direct: bool,
}

impl Io {
    fn put(&self, o: &mut Vec<u8>) {
        put_u64(o, self.chunks.len() as u64);
        for c in &self.chunks {
            put_u64(o, *c as u64);
        }
        match &self.fault {
            None => o.push(0),
            Some((at, k)) => {
                o.push(1);
                put_u64(o, *at as u64);
                put_bytes(o, k.as_bytes());
            }
        }
        put_u64(o, self.interrupts);
        o.push(u8::from(self.once) + 2 * u8::from(self.direct));
    }
    fn get(c: &mut Cur) -> Io {
        let n = c.u64();
        let chunks = (0..n).map(|_| c.u64() as usize).collect();
        let fault = if c.u8() == 1 {
            let at = c.u64() as usize;
            Some((at, c.str()))
        } else {
            None
        };
        let interrupts = c.u64();
        let flags = c.u8();
        Io { chunks, fault, once: flags & 1 != 0, interrupts, direct: flags & 2 != 0 }
    }
}

struct Feeder {
    data: Vec<u8>,
    pos: usize,
    /// The end of the current piece.
    end: usize,
    turn: usize,
    io: Io,
    eof_calls: usize,
    calls: u64,
}

/// Whether this call is interrupted.
fn interrupted(io: &Io, calls: &mut u64) -> io::Result<()> {
    *calls += 1;
    if io.interrupts > 1 && *calls % io.interrupts == 1 {
        return Err(io::ErrorKind::Interrupted.into());
    }
    Ok(())
}

impl BufRead for Feeder {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.io.direct {
            interrupted(&self.io, &mut self.calls)?;
        }
        self.fill()
    }
    fn consume(&mut self, n: usize) {
        assert!(self.pos + n <= self.end, "harness: consumed more than there was");
        self.pos += n;
    }
}

impl Feeder {
    fn fill(&mut self) -> io::Result<&[u8]> {
        let stop = self.io.fault.as_ref().map_or(self.data.len(), |f| f.0.min(self.data.len()));
        if self.pos >= stop {
            if let Some((_, k)) = self.io.fault.clone() {
                if self.io.once {
                    self.io.fault = None;
                }
                return Err(io::Error::new(kind_of(&k), FAULT));
            }
            self.eof_calls += 1;
            if self.eof_calls > 100_000 {
                panic!("{LIVELOCK}");
            }
            return Ok(&[]);
        }
        if self.end <= self.pos {
            let n = if self.io.chunks.is_empty() {
                self.data.len()
            } else {
                let n = self.io.chunks[self.turn % self.io.chunks.len()].max(1);
                self.turn += 1;
                n
            };
            self.end = self.pos.saturating_add(n).min(stop);
        }
        Ok(&self.data[self.pos..self.end])
    }
}

impl Read for Feeder {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        interrupted(&self.io, &mut self.calls)?;
        let x = self.fill()?;
        let n = x.len().min(b.len());
        b[..n].copy_from_slice(&x[..n]);
        self.consume(n);
        Ok(n)
    }
}

struct Taker {
    data: Vec<u8>,
    turn: usize,
    io: Io,
    calls: u64,
}

impl Write for Taker {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        interrupted(&self.io, &mut self.calls)?;
        let mut n = b.len();
        if let Some((at, k)) = self.io.fault.clone() {
            if self.data.len() >= at {
                if self.io.once {
                    self.io.fault = None;
                }
                return Err(io::Error::new(kind_of(&k), FAULT));
            }
            n = n.min(at - self.data.len());
        }
        if !self.io.chunks.is_empty() {
            n = n.min(self.io.chunks[self.turn % self.io.chunks.len()].max(1));
            self.turn += 1;
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub const ENC: u8 = 1;
pub const DEC: u8 = 2;
pub const SURVIVE: u8 = 3;
pub const CONV: u8 = 4;

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    fn _exit(code: i32) -> !;
}

fn cpu_ms() -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut t) };
    t.sec * 1000 + t.nsec / 1_000_000
}

/// Which request is being served, if any.
static SERVING: AtomicUsize = AtomicUsize::new(0);
const STUCK: i32 = 97;
/// Processor time for one request; the requests are small.
const PATIENCE_MS: i64 = 4000;

fn watchdog() {
    std::thread::spawn(|| {
        let mut seen = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let now = SERVING.load(Ordering::SeqCst);
            if now == 0 || now != seen.0 {
                seen = (now, cpu_ms());
            } else if cpu_ms() - seen.1 > PATIENCE_MS {
                unsafe { _exit(STUCK) };
            }
        }
    });
}

/// The main loop of the process that contains generated code.
pub fn serve(types: Vec<(String, Box<dyn TypeOps>)>) {
    let types: HashMap<String, Box<dyn TypeOps>> = types.into_iter().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = m);
    }));
    let mut stdin = io::stdin().lock();
    let mut stdout = io::stdout().lock();
    watchdog();
    let mut served = 0;
    loop {
        SERVING.store(0, Ordering::SeqCst);
        let mut n = [0; 8];
        if stdin.read_exact(&mut n).is_err() {
            return;
        }
        let mut req = vec![0; u64::from_le_bytes(n) as usize];
        stdin.read_exact(&mut req).expect("request");
        served += 1;
        SERVING.store(served, Ordering::SeqCst);
        let mut c = Cur(&req);
        let op = c.u8();
        let key = c.str();
        let t = types.get(&key).unwrap_or_else(|| panic!("no such type {key}"));
        let mut out: Vec<u8> = vec![];
        match op {
            ENC => {
                let io = Io::get(&mut c);
                let v = c.val();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut o = vec![];
                    let size = t.size(&v);
                    put_u64(&mut o, size as u64);
                    let mut w = Taker { data: vec![], turn: 0, io, calls: 0 };
                    let r = t.write(&v, &mut w);
                    put_bytes(&mut o, &w.data);
                    match r {
                        Ok(()) => o.push(0),
                        Err(e) => {
                            o.push(1);
                            put_bytes(&mut o, kind_name(e.kind()).as_bytes());
                            put_bytes(&mut o, e.to_string().as_bytes());
                        }
                    }
                    o
                }));
                finish(r, &mut out);
            }
            DEC | SURVIVE => {
                let io = Io::get(&mut c);
                let data = c.bytes();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut o = vec![];
                    let len = data.len();
                    let mut rd = Feeder { data, pos: 0, end: 0, turn: 0, io, eof_calls: 0, calls: 0 };
                    let before = NOW.load(Ordering::Relaxed);
                    PEAK.store(before, Ordering::Relaxed);
                    let r = t.read(&mut rd);
                    let peak = PEAK.load(Ordering::Relaxed).saturating_sub(before);
                    put_u64(&mut o, peak as u64);
                    put_u64(&mut o, rd.pos as u64);
                    put_u64(&mut o, len as u64);
                    match r {
                        Ok(f) => {
                            o.push(0);
                            if op == DEC {
                                put_val(&mut o, &f());
                            } else {
                                std::mem::forget(f);
                            }
                        }
                        Err(e) => {
                            o.push(1);
                            put_bytes(&mut o, kind_name(e.kind()).as_bytes());
                            put_bytes(&mut o, e.to_string().as_bytes());
                        }
                    }
                    o
                }));
                finish(r, &mut out);
            }
            CONV => {
                let v = c.val();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut o = vec![];
                    put_val(&mut o, &t.convert(&v));
                    o
                }));
                finish(r, &mut out);
            }
            _ => panic!("bad request"),
        }
        stdout.write_all(&(out.len() as u64).to_le_bytes()).expect("reply");
        stdout.write_all(&out).expect("reply");
        stdout.flush().expect("reply");
    }
}

fn finish(r: Result<Vec<u8>, Box<dyn std::any::Any + Send>>, out: &mut Vec<u8>) {
    match r {
        Ok(o) => {
            out.push(0);
            out.extend(o);
        }
        Err(_) => {
            out.push(2);
            put_bytes(out, LAST.with(|l| l.borrow().clone()).as_bytes());
        }
    }
}

// ---- the harness's side ----

/// What can happen instead of an answer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Crash {
    Panic(String),
    /// The code doesn't come to an end.
    Livelock,
    /// The process ended: how, and the last of its error output.
    Died(String),
    /// More units than the harness lists.
    Units,
}

#[derive(Clone, Debug)]
pub struct Encoded {
    pub size: u64,
    pub bytes: Vec<u8>,
    pub error: Option<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub peak: u64,
    pub consumed: u64,
    /// A value, or the kind and the text of an error.
    pub result: Result<Val, (String, String)>,
}

pub struct Exec {
    exe: PathBuf,
    log: PathBuf,
    child: Option<Child>,
}

impl Exec {
    pub fn new(exe: &Path) -> Exec {
        let log = exe.with_extension("log");
        Exec { exe: exe.to_owned(), log, child: None }
    }
    fn call(&mut self, req: &[u8]) -> Result<Vec<u8>, Crash> {
        if self.child.is_none() {
            let log = std::fs::File::create(&self.log).expect("log");
            let mut c = Command::new(&self.exe);
            c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(log).env_remove("RUST_BACKTRACE");
            crate::cli::limit(&mut c, 600, 6 << 30);
            self.child = Some(c.spawn().expect("cannot start generated code"));
        }
        let c = self.child.as_mut().unwrap();
        let r = (|| -> io::Result<Vec<u8>> {
            let w = c.stdin.as_mut().unwrap();
            w.write_all(&(req.len() as u64).to_le_bytes())?;
            w.write_all(req)?;
            w.flush()?;
            let r = c.stdout.as_mut().unwrap();
            let mut n = [0; 8];
            r.read_exact(&mut n)?;
            let mut b = vec![0; u64::from_le_bytes(n) as usize];
            r.read_exact(&mut b)?;
            Ok(b)
        })();
        match r {
            Ok(b) => {
                let mut cur = Cur(&b);
                match cur.u8() {
                    0 => Ok(b[1..].to_vec()),
                    _ => {
                        let m = cur.str();
                        Err(if m.contains(LIVELOCK) {
                            Crash::Livelock
                        } else if m.contains(BIG_UNITS) {
                            Crash::Units
                        } else {
                            Crash::Panic(m)
                        })
                    }
                }
            }
            Err(_) => {
                let mut c = self.child.take().unwrap();
                drop(c.stdin.take());
                let st = c.wait().expect("wait");
                if st.code() == Some(STUCK) {
                    return Err(Crash::Livelock);
                }
                let log = std::fs::read_to_string(&self.log).unwrap_or_default();
                let tail: String = log.lines().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
                Err(Crash::Died(format!("{st}: {tail}")))
            }
        }
    }
    pub fn encode(&mut self, key: &str, v: &Val, io: &Io) -> Result<Encoded, Crash> {
        let mut q = vec![ENC];
        put_bytes(&mut q, key.as_bytes());
        io.put(&mut q);
        put_val(&mut q, v);
        let a = self.call(&q)?;
        let mut c = Cur(&a);
        let size = c.u64();
        let bytes = c.bytes();
        let error = if c.u8() == 1 { Some((c.str(), c.str())) } else { None };
        Ok(Encoded { size, bytes, error })
    }
    pub fn decode(&mut self, key: &str, b: &[u8], io: &Io) -> Result<Decoded, Crash> {
        let mut q = vec![DEC];
        put_bytes(&mut q, key.as_bytes());
        io.put(&mut q);
        put_bytes(&mut q, b);
        let a = self.call(&q)?;
        let mut c = Cur(&a);
        let peak = c.u64();
        let consumed = c.u64();
        let _ = c.u64();
        let result = if c.u8() == 1 { Err((c.str(), c.str())) } else { Ok(c.val()) };
        Ok(Decoded { peak, consumed, result })
    }
    /// Decode without looking at the value. The peak of the memory in use, or the crash.
    pub fn survive(&mut self, key: &str, b: &[u8]) -> Result<(u64, bool), Crash> {
        let mut q = vec![SURVIVE];
        put_bytes(&mut q, key.as_bytes());
        Io::default().put(&mut q);
        put_bytes(&mut q, b);
        let a = self.call(&q)?;
        let mut c = Cur(&a);
        let peak = c.u64();
        let _ = c.u64();
        let _ = c.u64();
        Ok((peak, c.u8() == 0))
    }
    pub fn convert(&mut self, key: &str, v: &Val) -> Result<Val, Crash> {
        let mut q = vec![CONV];
        put_bytes(&mut q, key.as_bytes());
        put_val(&mut q, v);
        let a = self.call(&q)?;
        Ok(Cur(&a).val())
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        if let Some(mut c) = self.child.take() {
            drop(c.stdin.take());
            c.wait().ok();
        }
    }
}
