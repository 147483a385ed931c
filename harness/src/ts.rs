//! The harness's side of the process that runs generated TypeScript.

use crate::json::{hex, obj, unhex, J};
use crate::model::{Name, Rule, Set, Ty};
use crate::rust::Generated;
use crate::value::Val;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn descriptor(set: &Set) -> J {
    let mut m = std::collections::BTreeMap::new();
    for (f, d) in set.types() {
        let decl = set.decl(f, d);
        let fields = decl
            .fields
            .iter()
            .map(|x| {
                obj(vec![
                    ("n", x.name.ts_camel().into()),
                    ("rule", (x.rule as usize).into()),
                    ("ty", x.ty.to_json()),
                ])
            })
            .collect();
        m.insert(
            format!("{f}/{d}"),
            obj(vec![
                ("ns", J::Arr(set.files[f].components().iter().map(|c| c.pascal().into()).collect())),
                ("name", decl.name.pascal().into()),
                ("choice", decl.choice.into()),
                ("fields", J::Arr(fields)),
            ]),
        );
    }
    J::Obj(m)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TsCrash {
    Throw(String),
    /// The value does not have the documented shape.
    Shape(String),
    Units,
    Died(String),
}

struct Conn {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

pub struct Ts {
    sets: Vec<(String, PathBuf, Set)>,
    conn: Option<Conn>,
    /// Modules that could not be loaded.
    pub failed: Vec<(String, String)>,
    log: PathBuf,
}

pub struct TsEncoded {
    pub size: f64,
    pub bytes: Vec<u8>,
}

fn script() -> PathBuf {
    PathBuf::from(std::env::var("VH_TS_EXEC").expect("VH_TS_EXEC"))
}

/// The processor time which one request may take, in hundredths of a second; the requests are small.
const PATIENCE: u64 = 3000;

#[repr(C)]
struct Pollfd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(fds: *mut Pollfd, n: u64, timeout: i32) -> i32;
}

/// Processor time that the process has used so far.
fn used(child: &Child) -> u64 {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", child.id())).unwrap_or_default();
    let rest = stat.rsplit_once(')').map_or("", |x| x.1);
    let f: Vec<u64> = rest.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    f.get(11).unwrap_or(&0) + f.get(12).unwrap_or(&0)
}

/// Whether an answer comes, unless it takes too much processor time.
fn answers(child: &Child, stdout: &BufReader<ChildStdout>) -> bool {
    use std::os::fd::AsRawFd;
    if !stdout.buffer().is_empty() {
        return true;
    }
    let mut p = Pollfd { fd: stdout.get_ref().as_raw_fd(), events: 1, revents: 0 };
    let mut before = None;
    loop {
        if unsafe { poll(&mut p, 1, 2000) } != 0 {
            return true;
        }
        let now = used(child);
        if now > *before.get_or_insert(now) + PATIENCE {
            return false;
        }
    }
}

/// How many bytes follow a view in its buffer.
pub const AFTER: u64 = 16;

pub const VIEWS: usize = 13;

impl Ts {
    pub fn new(gens: &[Generated], log: PathBuf) -> Ts {
        let sets = gens.iter().map(|g| (g.key.clone(), g.ts.clone(), g.set.clone())).collect();
        let mut t = Ts { sets, conn: None, failed: vec![], log };
        t.start();
        t
    }
    fn start(&mut self) {
        let log = std::fs::File::create(&self.log).expect("log");
        let mut c = Command::new("node");
        c.arg("--max-old-space-size=2048")
            .arg(script())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(log)
            .env_remove("NODE_OPTIONS");
        crate::cli::limit(&mut c, 800, 0);
        let mut child = c.spawn().expect("cannot start node");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        self.conn = Some(Conn { child, stdin, stdout });
        let mut failed = vec![];
        for (k, p, s) in &self.sets.clone() {
            let q = obj(vec![
                ("op", "load".into()),
                ("k", k.as_str().into()),
                ("path", p.to_string_lossy().into_owned().into()),
                ("types", descriptor(s)),
            ]);
            match self.call(&q) {
                Ok(a) => {
                    if let Some(f) = a.get("failed") {
                        failed.push((k.clone(), f.s().to_owned()));
                    }
                }
                Err(e) => failed.push((k.clone(), format!("{e:?}"))),
            }
            if self.conn.is_none() {
                break;
            }
        }
        self.failed = failed;
    }
    fn call(&mut self, q: &J) -> Result<J, TsCrash> {
        if self.conn.is_none() {
            self.start();
        }
        let Some(c) = self.conn.as_mut() else {
            return Err(TsCrash::Died("node does not start".into()));
        };
        let mut l = q.text();
        l.push('\n');
        let mut a = String::new();
        let ok = c.stdin.write_all(l.as_bytes()).is_ok()
            && c.stdin.flush().is_ok()
            && answers(&c.child, &c.stdout)
            && c.stdout.read_line(&mut a).is_ok()
            && a.ends_with('\n');
        if ok {
            if let Ok(j) = J::parse(&a) {
                return Ok(j);
            }
        }
        let mut c = self.conn.take().unwrap();
        drop(c.stdin);
        c.child.kill().ok();
        let st = c.child.wait().expect("wait");
        let log = std::fs::read_to_string(&self.log).unwrap_or_default();
        let tail: Vec<&str> = log.lines().filter(|l| !l.trim().is_empty()).take(8).collect();
        Err(TsCrash::Died(format!("{st}: {}", tail.join(" | "))))
    }
    /// A sequence of calls; the answer of the executor.
    pub fn history(&mut self, steps: Vec<J>) -> Result<J, TsCrash> {
        self.call(&obj(vec![("op", "hist".into()), ("steps", J::Arr(steps))]))
    }
    pub fn encode(&mut self, key: &str, v: &Val) -> Result<TsEncoded, TsCrash> {
        let a = self.call(&obj(vec![("op", "enc".into()), ("k", key.into()), ("v", v.to_json())]))?;
        if let Some(t) = a.get("throw") {
            return Err(TsCrash::Throw(t.s().to_owned()));
        }
        Ok(TsEncoded { size: a.get("size").map_or(f64::NAN, J::n), bytes: unhex(a.get("hex").map_or("", J::s)) })
    }
    /// A value, or the text of an error.
    pub fn decode(
        &mut self,
        set: &Set,
        ty: (usize, usize),
        key: &str,
        b: &[u8],
        view: usize,
        pad: usize,
    ) -> Result<Result<Val, String>, TsCrash> {
        let a = self.call(&obj(vec![
            ("op", "dec".into()),
            ("k", key.into()),
            ("hex", hex(b).into()),
            ("view", view.into()),
            ("pad", pad.into()),
        ]))?;
        if let Some(t) = a.get("throw") {
            return Err(TsCrash::Throw(t.s().to_owned()));
        }
        if let Some(t) = a.get("shape") {
            return Err(TsCrash::Shape(t.s().to_owned()));
        }
        if a.get("units").is_some() {
            return Err(TsCrash::Units);
        }
        if let Some(t) = a.get("err") {
            return Ok(Err(t.s().to_owned()));
        }
        let j = a.get("ok").ok_or_else(|| TsCrash::Died(format!("odd answer {}", a.text())))?;
        match Val::from_json(set, &Ty::Ref(ty.0, ty.1), j) {
            Ok(v) => Ok(Ok(v)),
            Err(e) => Err(TsCrash::Shape(e)),
        }
    }
}

impl Drop for Ts {
    fn drop(&mut self) {
        if let Some(mut c) = self.conn.take() {
            drop(c.stdin);
            c.child.wait().ok();
        }
    }
}

// ---- the TypeScript that demonstrates the documented shapes to the type checker ----

fn ns(set: &Set, f: usize) -> String {
    set.files[f].components().iter().map(Name::pascal).collect::<Vec<_>>().join(".")
}

pub fn ts_type(set: &Set, root: &str, t: &Ty, dir: &str) -> String {
    match t {
        Ty::Unit => "null".into(),
        Ty::Bool => "boolean".into(),
        Ty::F64 => "number".into(),
        Ty::U64 | Ty::S64 => "bigint".into(),
        Ty::Bytes => "ArrayBuffer".into(),
        Ty::Str => "string".into(),
        Ty::Arr(t) => format!("Array<{}>", ts_type(set, root, t, dir)),
        Ty::Ref(f, d) => format!("{root}.{}.{}{dir}", ns(set, *f), set.decl(*f, *d).name.pascal()),
    }
}

/// Declarations which check only if every generated type is exactly the documented one.
pub fn witness(set: &Set, module: &str, n: usize) -> String {
    use std::fmt::Write as _;
    let r = format!("M{n}");
    let mut s = format!("import * as {r} from './{module}';\n");
    for (f, d) in set.types() {
        let decl = set.decl(f, d);
        let me = format!("{r}.{}.{}", ns(set, f), decl.name.pascal());
        for dir in ["Out", "In"] {
            let mut e = String::new();
            if decl.choice {
                let mut alts = vec![];
                for fl in &decl.fields {
                    let t = ts_type(set, &r, &fl.ty, dir);
                    let p = fl.name.ts_camel();
                    let fb = match (dir, fl.rule) {
                        (_, Rule::Req) | ("In", Rule::Asym) => String::new(),
                        _ => format!("; $fallback: {me}{dir}"),
                    };
                    let tag = if dir == "In" { format!("$field: '{p}'; ") } else { String::new() };
                    alts.push(format!("{{ {tag}{p}: {t}{fb} }}"));
                }
                if dir == "In" && decl.fields.len() == 1 {
                    // An extra alternative that nothing inhabits.
                    alts.push("{ $field: never }".into());
                }
                e.push_str(if alts.is_empty() { "never" } else { "" });
                e.push_str(&alts.join(" | "));
            } else {
                e.push_str("{ ");
                for fl in &decl.fields {
                    let t = ts_type(set, &r, &fl.ty, dir);
                    let u = match (dir, fl.rule) {
                        (_, Rule::Req) | ("Out", Rule::Asym) => "",
                        _ => " | undefined",
                    };
                    write!(e, "{}: {t}{u}; ", fl.name.ts_camel()).unwrap();
                }
                e.push('}');
            }
            writeln!(s, "export type E{dir}_{n}_{f}_{d} = {e};").unwrap();
            writeln!(s, "export const a{dir}_{n}_{f}_{d} = (x: E{dir}_{n}_{f}_{d}): {me}{dir} => x;").unwrap();
            writeln!(s, "export const b{dir}_{n}_{f}_{d} = (x: {me}{dir}): E{dir}_{n}_{f}_{d} => x;").unwrap();
        }
        writeln!(s, "export const c_{n}_{f}_{d}: (x: {me}Out) => number = {me}.size;").unwrap();
        writeln!(s, "export const d_{n}_{f}_{d}: (x: {me}Out) => ArrayBuffer = {me}.serialize;").unwrap();
        writeln!(s, "export const e_{n}_{f}_{d}: (x: {r}.Deserializable) => {me}In | Error = {me}.deserialize;").unwrap();
        if decl.choice && decl.fields.len() > 1 {
            // A switch over all the alternatives is exhaustive.
            writeln!(s, "export function s_{n}_{f}_{d}(x: {me}In): unknown {{\n  switch (x.$field) {{").unwrap();
            for fl in &decl.fields {
                let p = fl.name.ts_camel();
                writeln!(s, "    case '{p}': return x.{p};").unwrap();
            }
            writeln!(s, "    default: return {r}.unreachable(x);\n  }}\n}}").unwrap();
        }
    }
    s
}
