//! The checks which run the command-line tool on schema files.

use crate::cli::{put, run_tool, run_tool_into, run_tool_with, Run, Scratch};
use crate::code::parallel;
use crate::draw::{hash_str, mix, shrink, Src};
use crate::gen::{gen_name, gen_set, respell, Opts, Scope};
use crate::json::{obj, J};
use crate::model::{Rule, Set};
use crate::raw::{
    self, cycles, ident, judge, layout, lex, parse, plain, raw, style, words, Diag, Lines, RDecl, RField, RFile, RImport, RSet, RTy,
    Verdict, T,
};
use crate::report::{clip, fail, Ctx, Failure, Info};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ffi::OsString;
use std::fs::OpenOptions;
use std::os::fd::OwnedFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::net::UnixStream;
use std::path::Path;
use std::process::Stdio;

pub type CliCase = dyn Fn(&Scratch, &mut Src) -> Result<Info, Failure> + Sync;

pub struct CliPlan {
    pub cases: usize,
    pub case: Box<CliCase>,
    pub rule: &'static str,
    pub assume: Vec<&'static str>,
    /// Fixed cases of the known findings: a name, and what is wrong if the finding is still there.
    pub witnesses: Vec<(&'static str, Box<CliCase>)>,
}

pub fn run(ctx: &mut Ctx, plan: &CliPlan) {
    ctx.rule = plan.rule.to_owned();
    for a in &plan.assume {
        ctx.assume(a);
    }
    let known = ctx.known();
    for (name, w) in &plan.witnesses {
        let sc = Scratch::new();
        match w(&sc, &mut Src::replay(&[])) {
            Ok(i) => ctx.stats.add(i),
            Err(mut f) => {
                ctx.stats.evaluations += 1;
                f.known = Some((*name).to_owned());
                ctx.failed(f, obj(vec![("witness", (*name).into())]));
            }
        }
    }
    let base = ctx.seed_for("case", 0);
    let batch = 10usize;
    let failures = std::sync::atomic::AtomicUsize::new(0);
    let results = parallel(plan.cases.div_ceil(batch), |b| {
        use std::sync::atomic::Ordering::SeqCst;
        let sc = Scratch::new();
        let mut stats = crate::report::Stats::default();
        let mut found = None;
        for c in b * batch..((b + 1) * batch).min(plan.cases) {
            if failures.load(SeqCst) >= 3 {
                break;
            }
            sc.clear();
            let mut src = Src::random(mix(&[base, c as u64]));
            match (plan.case)(&sc, &mut src) {
                Ok(i) => stats.add(i),
                Err(f) => {
                    stats.evaluations += 1;
                    if let Some(k) = &f.known {
                        if known.contains(k) {
                            *stats.known.entry(k.clone()).or_default() += 1;
                            continue;
                        }
                    }
                    if failures.fetch_add(1, SeqCst) >= 3 {
                        break;
                    }
                    let choices = shrink(src.rec.clone(), 400, |cs| {
                        sc.clear();
                        matches!((plan.case)(&sc, &mut Src::replay(cs)), Err(x) if x.sig == f.sig && x.known == f.known)
                    });
                    sc.clear();
                    let last = (plan.case)(&sc, &mut Src::replay(&choices)).err().unwrap_or(f);
                    let files = files_text(&sc);
                    found = Some((last, choices, files));
                    break;
                }
            }
        }
        (stats, found)
    });
    let mut n = 0;
    for (stats, found) in results {
        ctx.stats.merge(stats);
        if let Some((mut f, choices, files)) = found {
            n += 1;
            if n <= 3 {
                f.text = format!("{}\n{}", f.text, clip(&files, 4000));
                let j = obj(vec![
                    ("choices", J::Arr(choices.iter().map(|c| c.to_string().into()).collect())),
                    ("files", files.as_str().into()),
                ]);
                ctx.failed(f, j);
            }
        }
    }
    if n > 0 {
        ctx.stats.count("batches with a violation", n);
    }
}

fn files_text(sc: &Scratch) -> String {
    let mut s = String::new();
    for (p, c) in sc.snapshot() {
        if let Some(c) = c {
            s.push_str(&format!("--- {p}\n{}\n", clip(&String::from_utf8_lossy(&c), 1500)));
        }
    }
    s
}

pub fn replay(plan: &CliPlan, case: &J) -> Option<Result<Info, Failure>> {
    let sc = Scratch::new();
    if let Some(w) = case.get("witness") {
        return plan.witnesses.iter().find(|x| x.0 == w.s()).map(|x| (x.1)(&sc, &mut Src::replay(&[])));
    }
    let choices: Vec<u64> = case.get("choices")?.arr().iter().filter_map(|c| c.s().parse().ok()).collect();
    Some((plan.case)(&sc, &mut Src::replay(&choices)))
}

// ---- generating sets of files ----

fn opts(s: &mut Src) -> Opts {
    Opts {
        max_files: *s.pick(&[4, 2, 7]),
        max_decls: *s.pick(&[5, 3, 10]),
        max_fields: *s.pick(&[4, 2, 7]),
        big_indices: s.chance(1, 10),
        comments: s.chance(2, 3),
        self_import: s.chance(1, 4),
        peculiar: true,
        ..Opts::default()
    }
}

/// A valid set, its syntax trees in various spellings, and their text in various layouts.
struct Made {
    set: Set,
    raw: RSet,
}

fn make(s: &mut Src) -> Made {
    let o = opts(s);
    let mut set = gen_set(s, &o);
    for f in 0..set.files.len() {
        for k in 0..set.files[f].imports.len() {
            if s.chance(1, 4) {
                let from = set.files[f].clone();
                let to = set.files[set.files[f].imports[k].target].clone();
                set.files[f].imports[k].path = Some(respell(s, &from, &to));
            }
        }
    }
    let r = if s.chance(1, 4) { raw(&set, None) } else { raw(&set, Some(s)) };
    Made { set, raw: r }
}

/// File names which aren't made of a name and `.t`, for some of the files.
fn odd_file_names(s: &mut Src, set: &Set) -> Vec<Option<String>> {
    let some = s.chance(1, 4);
    let mut names: Vec<Option<String>> = vec![];
    for f in &set.files {
        let st = f.stem.snake();
        names.push(if some && s.chance(1, 2) {
            let ext = *s.pick(&[".v1.t", ".typical", ".T", "", ".t.t", " 2.t", ".x.y.t", "-b.t", "#.t", ".", "\u{301}.t", "\\x.t", "\"q\".t"]);
            Some(format!("{st}{ext}"))
        } else {
            None
        });
    }
    // Files without an extension may have the name of a directory, and other names may come to mean the same.
    let mut seen = HashSet::new();
    for (k, f) in set.files.iter().enumerate() {
        let st = f.stem.snake();
        let name = names[k].clone().unwrap_or(format!("{st}.t"));
        let dir: Vec<String> = f.dirs.iter().map(|d| d.key()).collect();
        let ns = (dir.clone(), namespace_key(&name));
        let dirs = set.files.iter().any(|g| {
            g.dirs.len() > dir.len()
                && g.dirs[..dir.len()].iter().map(|d| d.key()).eq(dir.iter().cloned())
                && g.dirs[dir.len()].snake() == name
        });
        if dirs || !seen.insert(ns) {
            return vec![None; set.files.len()];
        }
    }
    names
}

fn namespace_key(name: &str) -> Vec<String> {
    raw::namespace(Path::new(name))
}

fn renamed(path: &str, name: &str) -> String {
    match path.rfind('/') {
        Some(k) => format!("{}{name}", &path[..=k]),
        None => name.to_owned(),
    }
}

fn rename_files(set: &Set, r: &mut RSet, names: &[Option<String>]) {
    for (f, file) in set.files.iter().enumerate() {
        if let Some(n) = &names[f] {
            r.files[f].0 = renamed(&r.files[f].0, n);
        }
        for (k, i) in file.imports.iter().enumerate() {
            if let Some(n) = &names[i.target] {
                let x = &mut r.files[f].1.imports[k];
                if x.alias.is_none() {
                    x.alias = Some(raw::stem(&x.path).unwrap_or_default());
                }
                x.path = renamed(&x.path, n);
            }
        }
    }
}

/// Other names for directories, and perhaps a copy of a file in a directory with nearly the same name.
#[derive(Default)]
struct OddDirs {
    names: BTreeMap<String, String>,
    /// The number of the file and the name of the other directory.
    twin: Option<(usize, String)>,
}

const DIR_MARKS: [&str; 10] = [".0", ".1", ".d", " 2", ".0.1", "-b", "#", "\u{301}", ".", "\"q\""];

fn odd_dirs(s: &mut Src, set: &Set, names: &[Option<String>]) -> OddDirs {
    let mut o = OddDirs::default();
    if !s.chance(1, 4) || names.iter().any(Option::is_some) {
        return o;
    }
    for f in &set.files {
        for d in &f.dirs {
            // The directory of the whole set has this name as well.
            let d = d.snake();
            if d != "in" && !o.names.contains_key(&d) && s.chance(2, 3) {
                o.names.insert(d.clone(), format!("{d}{}", s.pick(&DIR_MARKS)));
            }
        }
    }
    let low: Vec<usize> = (1..set.files.len())
        .filter(|f| set.files[*f].dirs.last().is_some_and(|d| d.snake() != "in") && set.files[*f].imports.iter().all(|i| i.path.is_none()))
        .collect();
    if !low.is_empty() && s.chance(2, 3) {
        let f = *s.pick(&low);
        o.twin = Some((f, format!("{}{}", set.files[f].dirs.last().map_or(String::new(), |d| d.snake()), s.pick(&DIR_MARKS))));
    }
    o
}

impl OddDirs {
    fn is_some(&self) -> bool {
        !self.names.is_empty() || self.twin.is_some()
    }

    fn path(&self, p: &str) -> String {
        let mut parts: Vec<String> = p.split('/').map(str::to_owned).collect();
        let n = parts.len();
        for x in &mut parts[..n - 1] {
            if let Some(y) = self.names.get(x) {
                x.clone_from(y);
            }
        }
        parts.join("/")
    }

    /// Rename the directories in a set, unless that makes names ambiguous.
    fn apply(&mut self, r: &mut RSet) {
        let was = r.clone();
        self.apply_anyway(r);
        let mut seen = HashSet::new();
        if !r.files.iter().all(|(p, _)| seen.insert(namespace_key(p))) {
            *r = was;
            *self = OddDirs::default();
        }
    }

    fn apply_anyway(&self, r: &mut RSet) {
        for (p, f) in &mut r.files {
            *p = self.path(p);
            for i in &mut f.imports {
                i.path = self.path(&i.path);
            }
        }
        if let Some((f, dir)) = &self.twin {
            let (p, mut file) = r.files[*f].clone();
            let mut parts: Vec<&str> = p.split('/').collect();
            let n = parts.len();
            if n < 2 || parts[n - 2] == dir {
                return;
            }
            let near = parts[n - 2].to_owned();
            parts[n - 2] = dir;
            let q = parts.join("/");
            if r.files.iter().any(|(p, _)| p.starts_with(&format!("{}/", parts[..n - 1].join("/")))) {
                return;
            }
            // What it imports is where it was, but for what lies in or below its own directory.
            for i in &mut file.imports {
                if !i.path.starts_with("../") {
                    if i.alias.is_none() {
                        i.alias = raw::stem(&i.path);
                    }
                    i.path = format!("../{near}/{}", i.path);
                }
            }
            r.files[0].1.imports.push(RImport { path: q.clone(), alias: Some("zz_twin_dir".to_owned()) });
            r.files.push((q, file));
        }
    }
}

/// Where a path leads from a file, both relative to the main file's directory. `base` is that directory's own path.
fn leads(base: &str, from: &str, path: &str) -> Option<String> {
    let mut parts: Vec<&str> = vec![];
    let whole;
    if let Some(x) = path.strip_prefix(base) {
        whole = x.to_owned();
    } else {
        // The directory's own name, for paths that leave it and return.
        whole = format!("{}/{path}", from.rfind('/').map_or("", |k| &from[..k]));
    }
    let own = base.rsplit('/').next().unwrap_or("");
    let mut above = false;
    for c in whole.split('/') {
        match c {
            "" | "." => {}
            ".." if above => return None,
            ".." => above = parts.pop().is_none(),
            c if above => {
                if c != own {
                    return None;
                }
                above = false;
            }
            c => parts.push(c),
        }
    }
    Some(parts.join("/"))
}

fn plain_path(from: &str, to: &str) -> String {
    format!("{}{to}", "../".repeat(from.matches('/').count()))
}

/// A copy of a directory beside it, with the same imports in it, of which the main file imports one: the files of the copy
/// that are part of the set are added to it, and the others (with their text) returned.
fn mirror(s: &mut Src, r: &mut RSet, base: &str) -> Option<(usize, Vec<(String, RFile)>)> {
    let dirs: BTreeSet<String> = r
        .files
        .iter()
        .flat_map(|(p, _)| p.char_indices().filter(|c| c.1 == '/').map(|(k, _)| p[..k].to_owned()).collect::<Vec<_>>())
        .collect();
    if dirs.is_empty() {
        return None;
    }
    let dir = s.pick(&dirs.into_iter().collect::<Vec<_>>()).clone();
    let copy = match dir.rfind('/') {
        Some(k) => format!("{}/zz_copy", &dir[..k]),
        None => "zz_copy".to_owned(),
    };
    let was = r.files.len();
    let mut copies: BTreeMap<String, RFile> = BTreeMap::new();
    for (p, f) in &r.files {
        if let Some(x) = p.strip_prefix(&format!("{dir}/")) {
            copies.insert(format!("{copy}/{x}"), f.clone());
        }
    }
    let names: Vec<String> = copies.keys().cloned().collect();
    let mut todo = vec![s.pick(&names).clone()];
    let i = RImport { path: todo[0].clone(), alias: Some("zz_mirror".to_owned()) };
    let at = s.size(r.files[0].1.imports.len() + 1);
    r.files[0].1.imports.insert(at, i);
    while let Some(p) = todo.pop() {
        if let Some(f) = copies.remove(&p) {
            todo.extend(f.imports.iter().filter_map(|i| leads(base, &p, &i.path)));
            r.files.push((p, f));
        }
    }
    Some((was, copies.into_iter().collect()))
}

fn texts(r: &RSet, s: &mut Src) -> Vec<(String, String)> {
    r.files.iter().map(|(p, f)| (p.clone(), if s.chance(1, 3) { plain(f) } else { layout(f, s) })).collect()
}

fn put_all(sc: &Scratch, dir: &str, ts: &[(String, String)]) {
    for (p, t) in ts {
        sc.put(&format!("{dir}/{p}"), t.as_bytes());
    }
}

fn show(ts: &[(String, String)]) -> String {
    clip(&ts.iter().map(|(p, t)| format!("--- {p}\n{t}\n")).collect::<String>(), 900)
}

fn hash_texts(ts: &[(String, String)]) -> u64 {
    hash_str(&ts.iter().map(|(p, t)| format!("{p}\0{t}\0")).collect::<String>())
}

/// Crashes, in the sense of the front end: anything but success or a reported error.
fn tidy(r: &Run, what: &str) -> Result<(), Failure> {
    match r.code {
        Some(0) => Ok(()),
        Some(1) if !r.err().trim().is_empty() => Ok(()),
        Some(1) => fail("no message", format!("{what}: exit 1 without an error message: {}", clip(&r.err(), 500))),
        Some(101) => fail("panic", format!("{what}: panicked: {}", clip(&r.err(), 800))),
        _ => fail("crash", format!("{what}: {}: {}", r.how(), clip(&r.err(), 500))),
    }
}

// ---- breaking sets ----

fn any_decl(s: &mut Src, r: &RSet, need: &dyn Fn(&RDecl) -> bool) -> Option<(usize, usize)> {
    let all: Vec<(usize, usize)> = r
        .files
        .iter()
        .enumerate()
        .flat_map(|(f, x)| x.1.decls.iter().enumerate().filter(|d| need(d.1)).map(move |(d, _)| (f, d)))
        .collect();
    if all.is_empty() {
        None
    } else {
        Some(*s.pick(&all))
    }
}

fn respelled(s: &mut Src, n: &str) -> String {
    style(&words(n), s.size(6))
}

fn inner_named(t: &mut RTy) -> Option<(&mut Option<String>, &mut String)> {
    match t {
        RTy::Arr(t) => inner_named(t),
        RTy::Named(i, n) => Some((i, n)),
        RTy::Prim(_) => None,
    }
}

fn wrap(s: &mut Src, mut t: RTy) -> RTy {
    for _ in 0..s.weighted(&[4, 2, 1]) {
        t = RTy::Arr(Box::new(t));
    }
    t
}

/// A reference to a declaration, as seen from another file (importing that file if necessary).
fn reference(s: &mut Src, r: &mut RSet, from: usize, to: (usize, usize)) -> RTy {
    let name = respelled(s, &r.files[to.0].1.decls[to.1].name.clone());
    if from == to.0 {
        return RTy::Named(None, name);
    }
    let path = format!("{}{}", "../".repeat(r.files[from].0.matches('/').count()), r.files[to.0].0);
    let alias = format!("zz_{}", r.files[from].1.imports.len());
    r.files[from].1.imports.push(RImport { path, alias: Some(alias.clone()) });
    RTy::Named(Some(alias), name)
}

pub const CORRUPTIONS: usize = 24;

/// Change a set in a way that typically makes it invalid; the validator's oracle decides.
fn corrupt(s: &mut Src, r: &mut RSet, extra: &mut Vec<(String, Vec<u8>)>) -> &'static str {
    let has_fields = |d: &RDecl| !d.fields.is_empty();
    match s.below(CORRUPTIONS as u64) {
        0 => {
            if let Some((f, d)) = any_decl(s, r, &has_fields) {
                let ds = &mut r.files[f].1.decls[d];
                let i = s.size(ds.fields.len());
                let mut x = ds.fields[i].clone();
                x.name = respelled(s, &x.name);
                x.index = (ds.fields.len() + ds.deleted.as_ref().map_or(0, Vec::len)) as u64;
                let at = s.size(ds.fields.len() + 1);
                ds.fields.insert(at, x);
            }
            "field name twice"
        }
        1 => {
            if let Some((f, d)) = any_decl(s, r, &has_fields) {
                let ds = &mut r.files[f].1.decls[d];
                let i = s.size(ds.fields.len());
                let mut x = ds.fields[i].clone();
                x.name = "zz_other".into();
                let at = s.size(ds.fields.len() + 1);
                ds.fields.insert(at, x);
            }
            "index twice"
        }
        2 => {
            if let Some((f, d)) = any_decl(s, r, &has_fields) {
                let ds = &mut r.files[f].1.decls[d];
                let i = s.size(ds.fields.len());
                let x = ds.fields[i].index;
                let dl = ds.deleted.get_or_insert_with(Vec::new);
                let at = s.size(dl.len() + 1);
                dl.insert(at, x);
            }
            "index in use and deleted"
        }
        3 => {
            if let Some((f, d)) = any_decl(s, r, &|d| d.deleted.as_ref().is_some_and(|d| !d.is_empty())) {
                let dl = r.files[f].1.decls[d].deleted.as_mut().unwrap();
                let at = s.size(dl.len());
                dl.remove(at);
            }
            "deleted index forgotten"
        }
        4 => {
            if let Some((f, d)) = any_decl(s, r, &has_fields) {
                let ds = &mut r.files[f].1.decls[d];
                let i = s.size(ds.fields.len());
                let d = s.range(1, 3);
                ds.fields[i].index = match s.below(3) {
                    0 => ds.fields[i].index + d,
                    1 => ds.fields[i].index.saturating_sub(d),
                    _ => *s.pick(&[(1 << 62) - 1, 1 << 62, u64::MAX, 1 << 63, 1 << 61]),
                };
            }
            "index moved"
        }
        5 => {
            if let Some((f, d)) = any_decl(s, r, &has_fields) {
                let ds = &mut r.files[f].1.decls[d];
                let i = s.size(ds.fields.len());
                ds.fields.remove(i);
            }
            "field removed"
        }
        6 => {
            if let Some((f, d)) = any_decl(s, r, &has_fields) {
                let n = s.pick(&["nowhere", "Nothing", "Zz"]).to_string();
                let t = wrap(s, RTy::Named(None, n));
                let ds = &mut r.files[f].1.decls[d];
                let i = s.size(ds.fields.len());
                ds.fields[i].ty = Some(t);
            }
            "unknown type"
        }
        7 => {
            if let Some((f, d)) = any_decl(s, r, &|d| {
                d.fields.iter().any(|x| x.ty.clone().is_some_and(|mut t| inner_named(&mut t).is_some()))
            }) {
                let ds = &mut r.files[f].1.decls[d];
                for x in &mut ds.fields {
                    if let Some((i, _)) = x.ty.as_mut().and_then(inner_named) {
                        *i = match i {
                            Some(_) => None,
                            None => Some("zz_missing".into()),
                        };
                        break;
                    }
                }
            }
            "reference with another qualifier"
        }
        8 => {
            let f = s.size(r.files.len());
            if !r.files[f].1.imports.is_empty() {
                let i = s.size(r.files[f].1.imports.len());
                r.files[f].1.imports.remove(i);
            }
            "import removed"
        }
        9 | 10 => {
            // A reference that may close a cycle.
            if let (Some((f, d)), Some(to)) = (any_decl(s, r, &|_| true), any_decl(s, r, &|_| true)) {
                let t = reference(s, r, f, to);
                let t = wrap(s, t);
                let ds = &mut r.files[f].1.decls[d];
                let index = (ds.fields.len() + ds.deleted.as_ref().map_or(0, Vec::len)) as u64;
                let rule = *s.pick(&[Rule::Req, Rule::Asym, Rule::Opt]);
                ds.fields.push(RField { comment: vec![], rule, name: "zz_link".into(), ty: Some(t), index });
            }
            "another reference"
        }
        11 => {
            if let Some((f, d)) = any_decl(s, r, &|_| true) {
                let name = r.files[f].1.decls[d].name.clone();
                let name = respelled(s, &name);
                let fs = &mut r.files[f].1.decls;
                let at = s.size(fs.len() + 1);
                fs.insert(at, RDecl { comment: vec![], choice: s.chance(1, 2), name, fields: vec![], deleted: None });
            }
            "declaration name twice"
        }
        12 => {
            let f = s.size(r.files.len());
            if !r.files[f].1.imports.is_empty() {
                let i = s.size(r.files[f].1.imports.len());
                let mut x = r.files[f].1.imports[i].clone();
                let n = x.alias.clone().unwrap_or_else(|| raw::stem(&x.path).unwrap_or_default());
                if s.chance(1, 2) {
                    x.alias = Some(respelled(s, &n));
                }
                let at = s.size(r.files[f].1.imports.len() + 1);
                r.files[f].1.imports.insert(at, x);
            }
            "import name twice"
        }
        13 => {
            if let Some((f, d)) = any_decl(s, r, &|d| d.deleted.as_ref().is_some_and(|d| !d.is_empty())) {
                let dl = r.files[f].1.decls[d].deleted.as_mut().unwrap();
                let i = s.size(dl.len());
                let x = dl[i];
                let at = s.size(dl.len() + 1);
                dl.insert(at, x);
            }
            "index deleted twice"
        }
        14 => {
            let f = s.size(r.files.len());
            let path = s
                .pick(&["missing.t", "nodir/missing.t", "../outside.t", "../../x.t", "/dev/null", "adir", "bad_utf8.t", "zz_ok.t", "nodir/../zz_ok.t"])
                .to_string();
            let alias = if s.chance(1, 2) { Some("zz_extra".to_owned()) } else { None };
            r.files[f].1.imports.push(RImport { path, alias });
            let dir = r.files[f].0.rfind('/').map_or("", |k| &r.files[f].0[..=k]).to_owned();
            extra.push((format!("{dir}adir/file.t"), vec![]));
            extra.push((format!("{dir}bad_utf8.t"), b"# \xff\n".to_vec()));
            extra.push((format!("{dir}zz_ok.t"), b"struct Fine {\n}\n".to_vec()));
            extra.push(("../outside.t".into(), b"struct Fine {\n}\n".to_vec()));
            "import of something else"
        }
        15 => {
            // Another file with the namespace of an existing one.
            let f = s.size(r.files.len());
            let p = r.files[f].0.clone();
            let (dir, file) = p.rsplit_once('/').map_or(("", p.as_str()), |(a, b)| (a, b));
            let st = file.strip_suffix(".t").unwrap_or(file);
            let other = match s.below(3) {
                0 => format!("{st}.x"),
                1 => st.to_owned(),
                _ => format!("{}.t", style(&words(st), 1)),
            };
            let full = if dir.is_empty() { other } else { format!("{dir}/{other}") };
            let from = s.size(r.files.len());
            let up = "../".repeat(r.files[from].0.matches('/').count());
            r.files[from].1.imports.push(RImport { path: format!("{up}{full}"), alias: Some("zz_twin".into()) });
            if full != p && !r.files.iter().any(|x| x.0.starts_with(&format!("{full}/"))) {
                extra.push((full, b"struct Twin {\n}\n".to_vec()));
            }
            "file with the namespace of another"
        }
        16 => {
            if let Some((f, d)) = any_decl(s, r, &|_| true) {
                r.files[f].1.decls.remove(d);
            }
            "declaration removed"
        }
        17 => {
            if let Some((f, d)) = any_decl(s, r, &|_| true) {
                r.files[f].1.decls[d].name.push_str("_zz");
            }
            "declaration renamed"
        }
        21 => {
            // A gap of several indices.
            if let Some((f, d)) = any_decl(s, r, &has_fields) {
                let ds = &mut r.files[f].1.decls[d];
                let (from, by) = (s.below(ds.fields.len() as u64 + 1), s.range(1, 6));
                for x in &mut ds.fields {
                    if x.index >= from && x.index < 1 << 60 {
                        x.index += by;
                    }
                }
                for x in ds.deleted.iter_mut().flatten() {
                    if *x >= from && *x < 1 << 60 {
                        *x += by;
                    }
                }
            }
            "indices moved"
        }
        20 => {
            // A long chain of types, which may be closed.
            let n = if s.chance(1, 10) { s.range(40, 300) } else { s.range(2, 40) } as usize;
            let at: Vec<usize> = (0..n).map(|_| s.size(r.files.len())).collect();
            let mut places = vec![];
            for k in 0..n {
                let name = format!("zz_c{k}");
                r.files[at[k]].1.decls.push(RDecl { comment: vec![], choice: s.chance(1, 3), name, fields: vec![], deleted: None });
                places.push((at[k], r.files[at[k]].1.decls.len() - 1));
            }
            let first = if s.chance(1, 2) { 0 } else { s.size(n) };
            // With several links each, there are very many ways along the chain.
            let links = *s.pick(&[1, 1, 2, 3]);
            for k in 0..n * links {
                let (k, link) = (k / links, k % links);
                let next = match k + 1 {
                    x if x < n => places[x],
                    _ if s.chance(2, 3) => places[first],
                    _ => break,
                };
                let t = reference(s, r, places[k].0, next);
                let t = wrap(s, t);
                let rule = *s.pick(&[Rule::Req, Rule::Asym, Rule::Opt]);
                let x = RField { comment: vec![], rule, name: format!("zz_link_{link}"), ty: Some(t), index: link as u64 };
                r.files[places[k].0].1.decls[places[k].1].fields.push(x);
            }
            "chain of types"
        }
        22 => {
            // Several more files, most of them broken.
            for k in 0..s.range(2, 5) {
                let f = s.size(r.files.len());
                let dir = r.files[f].0.rfind('/').map_or("", |k| &r.files[f].0[..=k]).to_owned();
                let text: &[u8] = s.pick::<&[u8]>(&[
                    b"# \xff\n",
                    b"# \xfe\n\nstruct Foo {\n}\n",
                    b"struct Foo {\n  a: U64 = 0\n",
                    b"struct Foo {\n  a: @ = 0\n}\n",
                    b"import 'missing.t'\n",
                    b"import 'missing.t'\n\nstruct Foo {\n  a: Missing = 0\n}\n",
                    b"struct Foo {\n  a: Missing = 0\n}\n",
                    b"struct Foo {\n  a = 0\n  a = 0\n}\n",
                    b"struct Foo {\n  a: Foo = 0\n}\n",
                    b"struct Foo {\n}\n",
                    b"",
                ]);
                r.files[f].1.imports.push(RImport { path: format!("zz_more_{k}.t"), alias: None });
                extra.push((format!("{dir}zz_more_{k}.t"), text.to_vec()));
            }
            "several more files"
        }
        23 => {
            // Files which import each other in very many ways.
            let n = if s.chance(1, 10) { s.range(24, 120) } else { s.range(2, 24) };
            let f = s.size(r.files.len());
            let dir = r.files[f].0.rfind('/').map_or("", |k| &r.files[f].0[..=k]).to_owned();
            r.files[f].1.imports.push(RImport { path: "zz_net_0_0.t".into(), alias: None });
            let width = s.range(1, 3);
            let back = s.chance(1, 3);
            for k in 0..n {
                for i in 0..width {
                    let mut text = String::new();
                    for j in 0..width {
                        if k + 1 < n {
                            text += &format!("import 'zz_net_{}_{j}.t'\n", k + 1);
                        } else if back {
                            text += &format!("import 'zz_net_0_{j}.t'\n");
                        }
                    }
                    extra.push((format!("{dir}zz_net_{k}_{i}.t"), text.into_bytes()));
                }
            }
            "net of files"
        }
        18 => {
            let f = s.size(r.files.len());
            if !r.files[f].1.imports.is_empty() {
                let i = s.size(r.files[f].1.imports.len());
                r.files[f].1.imports[i].alias = Some("zz_renamed".into());
            }
            "import renamed"
        }
        _ => {
            if let Some((f, d)) = any_decl(s, r, &|_| true) {
                let x = r.files[f].1.decls.remove(d);
                let g = s.size(r.files.len());
                r.files[g].1.decls.push(x);
            }
            "declaration moved to another file"
        }
    }
}

const ODD_NAMES: [&str; 43] = [
    "$1x", "$_x", "$²", "$٣", "$é", "$struct", "$1", "$as", "$U64",
    "first-name", "a$b", "$", "$$a", "_x", "_", "x_", "x__y", "__", "1x", "x1", "x_1", "a.b", "a b", "é", "e\u{301}x", "\u{301}", "²", "x²",
    "٣", "x٣", "世界", "🦀", "x🦀", "x\u{200d}y", "x'y", "x#y", "Struct", "struct", "U64", "u64", "ΣΑΣ", "a'", "x@",
];

/// Change some tokens or characters of a file.
fn scramble(s: &mut Src, t: &str) -> String {
    let how = s.weighted(&[8, 8, 4, 4, 4, 1]);
    if how == 5 {
        // A path (or what stands where one may), or one more import.
        let Ok(toks) = lex(t) else { return t.to_owned() };
        let p = *s.pick(&[
            "", "..", ".", "/", "../", "./", "../..", "a", "a.", ".t", "..t", "a.t/", "a.t/.", "a.t/..", "//", "x/..", " ", "main.t/", "a\tb",
            "a.b.t", "é.t", "$.t", "1.t", "_.t", "struct.t", "a b.t", "/dev/null", "#.t", "~", "a\\b.t", "http://a.t",
        ]);
        let paths: Vec<(usize, usize)> =
            toks.iter().filter(|k| matches!(k.t, T::Path(_))).map(|k| (k.start, k.end)).collect();
        let alias = if s.chance(1, 4) { " as zz_zz" } else { "" };
        let front = toks.iter().find(|k| !matches!(k.t, T::Comment(_))).map_or(t.len(), |k| k.start);
        let (a, b, x) = if paths.is_empty() || s.chance(1, 2) {
            (front, front, format!("\nimport '{p}'{alias}\n"))
        } else {
            let (a, b) = *s.pick(&paths);
            (a, b, format!("'{p}'{}", if alias.is_empty() { "" } else { alias }))
        };
        return format!("{}{x}{}", &t[..a], &t[b..]);
    }
    if how == 4 {
        // A number (or what stands where one may) in another spelling.
        let Ok(toks) = lex(t) else { return t.to_owned() };
        let numbers: Vec<(usize, usize)> =
            toks.iter().filter(|k| matches!(k.t, T::Int(_))).map(|k| (k.start, k.end)).collect();
        if numbers.is_empty() {
            return t.to_owned();
        }
        let (a, b) = *s.pick(&numbers);
        let x = &t[a..b];
        let y = match s.below(14) {
            0 => format!("{x}_0"),
            1 => format!("{x}_"),
            2 => format!("0_{x}"),
            3 => format!("_{x}"),
            4 => format!("0x{x}"),
            5 => format!("{x}u64"),
            6 => format!("+{x}"),
            7 => format!("-{x}"),
            8 => format!("{x}.0"),
            9 => format!("00{x}"),
            10 => format!("{x} {x}"),
            11 => format!("{x}e0"),
            12 => x.chars().map(|c| char::from_u32(0x660 + c as u32 - 48).unwrap_or(c)).collect(),
            _ => format!("{}{x}", "0".repeat(s.range(1, 30) as usize)),
        };
        return format!("{}{y}{}", &t[..a], &t[b..]);
    }
    if how == 2 {
        // Only the beginning, perhaps up to the end of a token.
        let mut cut = s.size(t.len() + 1);
        if let (Ok(toks), true) = (lex(t), s.chance(2, 3)) {
            if let Some(k) = toks.iter().find(|k| k.end >= cut) {
                cut = k.end;
            }
        }
        while !t.is_char_boundary(cut) {
            cut -= 1;
        }
        let mut out = t[..cut].to_owned();
        out.push_str(s.pick::<&str>(&["", "", "\n", " # the end", "\n# the end\n", "\n\n# the end\n\n", "\r", "'"]));
        return out;
    }
    if how == 3 {
        // Another name for something, wherever it occurs.
        let Ok(toks) = lex(t) else { return t.to_owned() };
        let names: Vec<&str> = toks.iter().filter_map(|k| if let T::Name(n) = &k.t { Some(n.as_str()) } else { None }).collect();
        if names.is_empty() {
            return t.to_owned();
        }
        let old = ident(s.pick::<&str>(&names));
        let new = *s.pick(&ODD_NAMES);
        let mut out = String::new();
        let mut at = 0;
        for k in &toks {
            if matches!(&k.t, T::Name(n) if ident(n) == old) {
                out.push_str(&t[at..k.start]);
                out.push_str(new);
                at = k.end;
            }
        }
        out.push_str(&t[at..]);
        return out;
    }
    if how == 0 {
        let Ok(toks) = lex(t) else { return t.to_owned() };
        let mut parts: Vec<String> = toks
            .iter()
            .map(|k| {
                let mut x = t[k.start..k.end].to_owned();
                if matches!(k.t, T::Comment(_)) && !x.ends_with('\n') {
                    x.push('\n');
                }
                x
            })
            .collect();
        for _ in 0..s.range(1, 2) {
            if parts.is_empty() {
                break;
            }
            let i = s.size(parts.len());
            match s.below(5) {
                0 => {
                    parts.remove(i);
                }
                1 => parts.insert(i, parts[i].clone()),
                2 => {
                    let j = s.size(parts.len());
                    parts.swap(i, j);
                }
                k => {
                    let w = (*s.pick(&[
                        "{", "}", "[", "]", ":", ".", "=", "struct", "choice", "import", "as", "deleted", "optional", "asymmetric",
                        "U64", "Unit", "foo", "$struct", "7", "'a.t'", "# comment\n", "18446744073709551615", "18446744073709551616",
                        "007",
                    ]))
                    .to_owned();
                    if k == 3 {
                        parts[i] = w;
                    } else {
                        parts.insert(i, w);
                    }
                }
            }
        }
        let mut out = String::new();
        for p in parts {
            out.push_str(&p);
            out.push_str(if s.chance(1, 4) { "\n" } else { " " });
        }
        out
    } else {
        let mut cs: Vec<char> = t.chars().collect();
        for _ in 0..s.range(1, 3) {
            let i = s.size(cs.len() + 1);
            let c = *s.pick(&[
                ' ', '\n', '\r', '#', '\'', '$', '_', '-', '@', '{', '}', '[', ']', ':', '=', '.', '0', '9', 'a', 'É', '²', '\u{301}',
                '🦀', '\u{0}', '\u{feff}', '/', '"', '+', ',', ';', '(', '٣', '世',
            ]);
            match s.below(3) {
                0 if i < cs.len() => {
                    cs.remove(i);
                }
                1 if i < cs.len() => cs[i] = c,
                _ => cs.insert(i, c),
            }
        }
        cs.into_iter().collect()
    }
}

/// A set of files that may be invalid. They are in `in/` of the scratch directory.
struct Broken {
    main: String,
    classes: Vec<&'static str>,
    ts: Vec<(String, String)>,
}

fn make_broken(sc: &Scratch, s: &mut Src) -> Broken {
    let mut m = make(s);
    let names = odd_file_names(s, &m.set);
    rename_files(&m.set, &mut m.raw, &names);
    odd_dirs(s, &m.set, &names).apply(&mut m.raw);
    if s.chance(1, 8) {
        mirror(s, &mut m.raw, "/in");
    }
    let mut extra = vec![];
    let mut classes = vec![];
    let mut scrambled = false;
    match s.weighted(&[2, 8, 3, 2]) {
        0 => classes.push("unchanged"),
        1 => classes.push(corrupt(s, &mut m.raw, &mut extra)),
        2 => {
            classes.push(corrupt(s, &mut m.raw, &mut extra));
            classes.push(corrupt(s, &mut m.raw, &mut extra));
        }
        _ => {
            scrambled = true;
            classes.push("text scrambled");
        }
    }
    let mut ts = texts(&m.raw, s);
    if scrambled {
        let i = s.size(ts.len());
        for k in 0..ts.len() {
            if k == i || s.chance(1, 4) {
                ts[k].1 = scramble(s, &ts[k].1.clone());
            }
        }
    }
    let main = m.raw.files[0].0.clone();
    for (p, b) in &extra {
        sc.put(&format!("in/{p}"), b);
    }
    put_all(sc, "in", &ts);
    if s.chance(1, 40) {
        // One of the files can't be read.
        let i = if s.chance(1, 2) { 0 } else { s.size(ts.len()) };
        let at = sc.path().join("in").join(&ts[i].0);
        let _ = std::fs::remove_file(&at);
        classes.push(match s.below(3) {
            0 => {
                let mut b = ts[i].1.clone().into_bytes();
                b.insert(s.size(b.len() + 1), *s.pick(&[0x80, 0xc0, 0xff]));
                sc.put(&format!("in/{}", ts[i].0), &b);
                "a file isn't UTF-8"
            }
            1 => "a file is missing",
            _ => {
                std::fs::create_dir(&at).expect("directory");
                "a file is a directory"
            }
        });
    }
    Broken { main, classes, ts }
}

// ---- C15: the front end always ends properly ----

/// What stands, in arguments and paths, for a byte which isn't UTF-8.
const ODD: char = '\u{f8ff}';

fn odd(a: &str) -> OsString {
    let mut v = vec![];
    for (i, p) in a.split(ODD).enumerate() {
        if i > 0 {
            v.push(0xff);
        }
        v.extend_from_slice(p.as_bytes());
    }
    OsString::from_vec(v)
}

/// Somewhere for the output of the tool to go, and what that is.
fn sink(s: &mut Src) -> (Stdio, &'static str) {
    match s.weighted(&[10, 1, 1]) {
        0 => (Stdio::piped(), ""),
        1 => (OpenOptions::new().write(true).open("/dev/full").expect("cannot open /dev/full").into(), " > /dev/full"),
        _ => {
            let (ours, theirs) = UnixStream::pair().expect("cannot make a pair of sockets");
            drop(ours);
            (OwnedFd::from(theirs).into(), " > a closed pipe")
        }
    }
}

fn args_soup(s: &mut Src, main: &str) -> Vec<String> {
    let path = |s: &mut Src| {
        let k = s.weighted(&[10, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]);
        match k {
            0 => format!("in/{main}"),
            1 => "in".into(),
            2 => ".".into(),
            3 => "..".into(),
            4 => "/".into(),
            5 => format!("in/{main}/"),
            6 => "in/missing.t".into(),
            7 => String::new(),
            8 => format!("./in/../in/{main}"),
            9 => "/dev/null".into(),
            10 => format!("in//{main}"),
            _ => format!("odd{ODD}/{ODD}.t"),
        }
    };
    let out = |s: &mut Src| s.pick(&["out/a", "out/b/c/d", "in", ".", "", "in/../out.rs", "out/a/b", "x", "odd\u{f8ff}/\u{f8ff}", "\u{f8ff}/x"]).to_string();
    let mut a: Vec<String> = vec![];
    match s.weighted(&[8, 5, 1, 1]) {
        0 => {
            a.push("generate".into());
            a.push(path(s));
            if s.chance(1, 3) {
                a.push("--list-schemas".into());
            }
            if s.chance(2, 3) {
                a.push("--rust".into());
                a.push(out(s));
            }
            if s.chance(2, 3) {
                a.push("--typescript".into());
                a.push(out(s));
            }
        }
        1 => {
            a.push("format".into());
            a.push(path(s));
            if s.chance(1, 2) {
                a.push("--check".into());
            }
        }
        2 => {
            a.push("shell-completion".into());
            let w = s
                .pick(&["bash", "Fish", "ZSH", "powershell", "elvish", " bash ", "sh", "", "\u{130}", "PowerShell", "\u{f8ff}", "bash\u{f8ff}"])
                .to_string();
            a.push(w);
        }
        _ => {
            for _ in 0..s.below(4) {
                let w = s.pick(&["generate", "format", "shell-completion", "--check", "--rust", "--typescript", "--list-schemas", "--help", "-h", "--version", "-", "--", "help", "x", "", "\u{f8ff}", "--rust=\u{f8ff}"]).to_string();
                a.push(w);
            }
        }
    }
    a
}

fn soup(s: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..s.below(60) {
        let w: &str = *s.pick(&[
            "struct", "choice", "import", "as", "deleted", "optional", "asymmetric", "U64", "String", "Unit", "Bool", "{", "}", "[", "]",
            ":", "=", ".", "\n", "\n\n", " ", "# c", "#", "#\n", "'", "'a.t'", "''", "'.'", "'..'", "'/'", "'\n'", "$", "$_", "_", "a", "Foo", "foo_bar",
            "0", "1", "18446744073709551616", "4611686018427387904", "\r\n", "\t", "é", "ß", "İ", "ŉ", "ǅ", "²", "٣", "🦀", "@", "\u{0}",
            "\u{feff}", "\u{301}", "\u{200d}", "struct Foo {", "import 'main.t' as", "a: U64 = 0", "a = 0", "A__", "-",
        ]);
        out.extend_from_slice(w.as_bytes());
        if s.chance(1, 3) {
            out.push(b' ');
        }
        if s.chance(1, 60) {
            out.push(s.below(256) as u8);
        }
    }
    out
}

fn c15(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let mut class = "generated files";
    let main;
    let ts;
    match s.weighted(&[5, 4, 1, 1]) {
        0 => {
            let b = make_broken(sc, s);
            main = b.main;
            ts = b.ts;
        }
        1 => {
            class = "token soup";
            main = "main.t".to_owned();
            let n = s.range(1, 3);
            let mut v = vec![];
            for i in 0..n {
                let b = soup(s);
                let p = if i == 0 { main.clone() } else { (*s.pick(&["a.t", "Main.t", "main.x", "a"])).to_owned() };
                sc.put(&format!("in/{p}"), &b);
                v.push((p, String::from_utf8_lossy(&b).into_owned()));
            }
            ts = v;
        }
        2 => {
            class = "arbitrary bytes";
            main = "main.t".to_owned();
            let n = s.size(200);
            let b = s.bytes(n);
            sc.put("in/main.t", &b);
            ts = vec![("main.t".into(), String::from_utf8_lossy(&b).into_owned())];
        }
        _ => {
            class = "long or deep";
            main = "main.t".to_owned();
            let n = *s.pick(&[10usize, 100, 500]);
            let t = match s.below(6) {
                0 => format!("struct A {{\n a: {}U64{} = 0\n}}\n", "[".repeat(n), "]".repeat(n)),
                1 => format!("struct A {{\n a: {}U64", "[".repeat(n)),
                2 => (0..n).map(|i| format!("struct A{i} {{\n a: A{} = 0\n}}\n", i + 1)).collect(),
                3 => {
                    let mut t: String = (0..n).map(|i| format!("struct A{i} {{\n a: [A{}] = 0\n}}\n", i + 1)).collect();
                    t.push_str(&format!("choice A{n} {{\n}}\n"));
                    t
                }
                4 => format!("# {}\n\nstruct {} {{\n}}\n", "word ".repeat(n), "Long".repeat(n)),
                _ => format!("struct A {{\n {} = 0\n deleted {}\n}}\n", "x".repeat(n), (1..n).map(|i| format!("{i} ")).collect::<String>()),
            };
            sc.put("in/main.t", t.as_bytes());
            ts = vec![(main.clone(), clip(&t, 300))];
        }
    }
    let args = args_soup(s, &main);
    let (stdout, name) = sink(s);
    let what = format!("typical {}{name}", args.join(" ").replace(ODD, "\\xff"));
    if args.iter().any(|a| a.contains(ODD)) {
        let d = sc.path().join(odd(&format!("odd{ODD}")));
        std::fs::create_dir_all(&d).ok();
        std::fs::copy(sc.path().join("in").join(&main), d.join(odd(&format!("{ODD}.t")))).ok();
    }
    let a: Vec<OsString> = args.iter().map(|a| odd(a)).collect();
    let r = run_tool_with(sc.path(), &a, stdout, s.chance(1, 8));
    let foreign = args.iter().any(|a| a.contains(ODD)) && r.err().contains("clap-") && r.err().contains("parser.rs") && r.err().contains("unexpected invalid UTF-8 code point");
    tidy(&r, &what).map_err(|mut f| {
        // Words are only looked at like this once there is an option which isn't known.
        if foreign && args.iter().any(|a| a.starts_with('-')) {
            f.known = Some("options-with-other-bytes".into());
        }
        f
    })?;
    let mut classes = vec![class, if r.ok() { "accepted" } else { "rejected" }];
    if !name.is_empty() {
        classes.push("output that can't be written");
    }
    if a.iter().any(|a| std::str::from_utf8(a.as_bytes()).is_err()) {
        classes.push("arguments that aren't UTF-8");
    }
    Ok(Info {
        nontrivial: ts.iter().map(|t| t.1.len()).sum::<usize>() > 10,
        hash: mix(&[hash_texts(&ts), hash_str(&args.join("\0"))]),
        classes,
        runs: 1,
        sample: Some(format!("{what} -> {}\n{}", r.how(), show(&ts))),
    })
}

fn deep(n: usize) -> Box<CliCase> {
    Box::new(move |sc, _| {
        sc.put("main.t", format!("struct A {{\n a: {}U64{} = 0\n}}\n", "[".repeat(n), "]".repeat(n)).as_bytes());
        let r = run_tool(sc.path(), &["generate", "main.t"]);
        tidy(&r, &format!("generate with an array type of depth {n}"))?;
        Ok(Info::default())
    })
}

fn chain(n: usize) -> Box<CliCase> {
    Box::new(move |sc, _| {
        let mut t: String = (0..n).map(|i| format!("struct A{i} {{\n a: A{} = 0\n}}\n", i + 1)).collect();
        t.push_str(&format!("struct A{n} {{\n}}\n"));
        sc.put("main.t", t.as_bytes());
        let r = run_tool(sc.path(), &["generate", "main.t"]);
        tidy(&r, &format!("generate with a chain of {n} types"))?;
        Ok(Info::default())
    })
}

fn odd_option() -> Box<CliCase> {
    Box::new(|sc, _| {
        let what = format!("--check {ODD}");
        let a: Vec<OsString> = what.split(' ').map(odd).collect();
        let r = run_tool_into(sc.path(), &a, Stdio::piped());
        tidy(&r, "typical --check \\xff")?;
        Ok(Info::default())
    })
}

// ---- C16: exactly the valid sets are accepted ----

fn verdict(sc: &Scratch, main: &str) -> Verdict {
    judge(&sc.path().join("in"), main)
}

fn why(v: &Verdict) -> String {
    let all: Vec<String> = v.load.iter().chain(&v.syntax).chain(&v.semantic).map(|d| format!("{d:?}")).collect();
    if v.cyclic {
        "a type contains itself".into()
    } else {
        clip(&all.join("; "), 800)
    }
}

fn verdict_class(v: &Verdict) -> &'static str {
    if v.valid() {
        "valid"
    } else if !v.load.is_empty() {
        "invalid: loading"
    } else if !v.syntax.is_empty() {
        "invalid: syntax"
    } else if v.cyclic {
        "invalid: a type contains itself"
    } else {
        "invalid: semantics"
    }
}

fn c16(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let b = make_broken(sc, s);
    let v = verdict(sc, &b.main);
    let r = run_tool(sc.path(), &["generate", &format!("in/{}", b.main)]);
    let expected = if v.valid() { Some(0) } else { Some(1) };
    if r.code != expected {
        return if v.valid() {
            fail("valid set rejected", format!("a valid set of schemas is rejected ({}): {}", r.how(), clip(&r.err(), 800)))
        } else {
            fail("invalid set accepted", format!("an invalid set of schemas isn't rejected ({}); expected: {}", r.how(), why(&v)))
        };
    }
    let mut classes = b.classes.clone();
    classes.push(verdict_class(&v));
    Ok(Info {
        nontrivial: b.ts.iter().map(|t| t.1.len()).sum::<usize>() > 40,
        hash: hash_texts(&b.ts),
        classes,
        runs: 1,
        sample: Some(format!("{:?}, {}: {}\n{}", b.classes, verdict_class(&v), clip(&why(&v), 200), show(&b.ts))),
    })
}

// ---- C23: diagnostics ----

#[derive(Debug, Clone)]
struct Shown {
    path: Option<String>,
    lines: Vec<(usize, String)>,
    text: String,
}

fn diagnostics(err: &str) -> Vec<Shown> {
    let mut out: Vec<Shown> = vec![];
    for l in err.lines() {
        if let Some(rest) = l.strip_prefix("[Error]") {
            let rest = rest.trim_start();
            let path = rest.strip_prefix("[`").and_then(|x| x.split_once("`]")).map(|x| x.0.to_owned());
            out.push(Shown { path, lines: vec![], text: rest.to_owned() });
        } else if let (Some(d), Some((n, t))) = (out.last_mut(), l.split_once('\u{2502}')) {
            if let Ok(n) = n.trim().parse() {
                d.lines.push((n, t.strip_prefix(' ').unwrap_or(t).to_owned()));
            }
        }
    }
    out
}

fn without_colours(t: &str) -> String {
    let mut out = String::new();
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '\u{1b}' && cs.peek() == Some(&'[') {
            for c in cs.by_ref() {
                if c == 'm' {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn covers(d: &Diag, x: &Shown) -> bool {
    if d.path.is_some() && d.path != x.path {
        return false;
    }
    match d.lines {
        None => true,
        Some(Lines { first, last }) => {
            !x.lines.is_empty()
                && x.lines.iter().any(|l| l.0 == d.at)
                && x.lines.iter().all(|l| l.0 >= first && l.0 <= last)
        }
    }
}

/// What messages on cycles say: each group of types which contain each other is reported, each cycle once, and what is shown as a
/// path of types is one.
fn cycles_shown(v: &Verdict, shown: &[Shown]) -> Result<(), (&'static str, String)> {
    let groups = cycles(&v.graph);
    if shown.len() < groups.len() {
        return Err(("cycle not reported", format!("{} errors for {} separate cycles", shown.len(), groups.len())));
    }
    let plain = |x: &str| x.chars().filter(|c| *c != '_').collect::<String>().to_lowercase();
    let mut known: HashMap<String, Vec<&(Vec<String>, String)>> = HashMap::new();
    for k in v.graph.keys() {
        known.entry(plain(&format!("{}.{}", k.0.join("."), k.1))).or_default().push(k);
    }
    let mut paths: Vec<Vec<&(Vec<String>, String)>> = vec![];
    for x in shown {
        let quoted: Vec<&str> = x.text.split('`').skip(1).step_by(2).collect();
        let path: Option<Vec<_>> = quoted
            .iter()
            .map(|q| match known.get(&plain(q)) {
                Some(k) if k.len() == 1 => Some(k[0]),
                _ => None,
            })
            .collect();
        match path {
            Some(p) if p.len() >= 2 => paths.push(p),
            // Something else is said.
            _ => return Ok(()),
        }
    }
    let mut seen: Vec<BTreeSet<&(Vec<String>, String)>> = vec![];
    for p in &paths {
        if let Some(w) = p.windows(2).find(|w| !v.graph[w[0]].contains(w[1])) {
            return Err(("not a path of types", format!("{:?} has no field of {:?}", w[0], w[1])));
        }
        let last = p[p.len() - 1];
        let Some(at) = p[..p.len() - 1].iter().position(|x| *x == last) else {
            return Err(("not a cycle", format!("{p:?} doesn't end where it was before")));
        };
        let set: BTreeSet<_> = p[at..].iter().copied().collect();
        if seen.contains(&set) {
            return Err(("cycle reported twice", format!("{set:?} is reported twice")));
        }
        seen.push(set);
    }
    if let Some(g) = groups.iter().find(|g| !seen.iter().any(|s| s.iter().all(|x| g.contains(*x)))) {
        return Err(("cycle not reported", format!("nothing is said about {g:?}")));
    }
    Ok(())
}

fn c23(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let b = make_broken(sc, s);
    let v = verdict(sc, &b.main);
    let r = run_tool(sc.path(), &["generate", &format!("in/{}", b.main)]);
    let err = r.err();
    let shown = diagnostics(&err);
    let mut classes = b.classes.clone();
    classes.push(verdict_class(&v));
    let info = Info {
        nontrivial: !v.valid(),
        hash: hash_texts(&b.ts),
        classes,
        runs: 1,
        sample: Some(format!("{}\n{}\n{}", why(&v), clip(&err, 500), show(&b.ts))),
    };
    if v.valid() {
        if !shown.is_empty() {
            return fail("error without cause", format!("an error for a valid set: {err}"));
        }
        return Ok(info);
    }
    // What is shown must really be there.
    let base = sc.path().join("in").canonicalize().expect("directory");
    for x in &shown {
        let Some(p) = &x.path else { continue };
        let Ok(text) = std::fs::read_to_string(base.join(p)) else {
            return fail("no such file", format!("the error names {p}, which can't be read: {}", x.text));
        };
        let lines: Vec<&str> = text.split('\n').collect();
        for (n, t) in &x.lines {
            if *n == 0 || *n > lines.len() || lines[*n - 1].trim_end() != t.trim_end() {
                return fail("wrong text", format!("the error shows line {n} of {p} as {t:?}, which isn't what is there:\n{err}"));
            }
        }
    }
    if s.chance(1, 3) {
        // In colour, the same is shown.
        let r = run_tool_with(sc.path(), &["generate", &format!("in/{}", b.main)], Stdio::piped(), true);
        let text = without_colours(&r.err());
        let other = diagnostics(&text);
        if other.len() != shown.len() || other.iter().zip(&shown).any(|(a, b)| a.lines != b.lines) {
            return fail("colours", format!("in colour, something else is shown:\n{text}\n--- without\n{err}"));
        }
        let bare = |x: &str| x.chars().filter(|c| !c.is_whitespace() && !matches!(c, '`' | '\u{203e}' | '\u{250a}')).collect::<String>();
        if bare(&text) != bare(&err) {
            return fail("colours", format!("in colour, something else is written:\n{text}\n--- without\n{err}"));
        }
    }
    let what = |d: &Diag| format!("{d:?}; the tool wrote:\n{}", clip(&err, 1500));
    if v.semantic.is_empty() && v.cyclic {
        if shown.is_empty() {
            return fail("cycle not reported", format!("no error for a cycle: {err}"));
        }
        return match cycles_shown(&v, &shown) {
            Ok(()) => Ok(info),
            Err((sig, e)) => fail(sig, format!("{e}; the tool wrote:\n{}", clip(&err, 1500))),
        };
    }
    for d in &v.syntax {
        // The first error reported for the file, but for what the parser notices in passing.
        let passing: Vec<&Diag> = v.passing.iter().filter(|p| p.path == d.path).collect();
        match shown.iter().find(|x| x.path == d.path && (covers(d, x) || !passing.iter().any(|p| covers(p, x)))) {
            Some(x) if covers(d, x) => {}
            _ => return fail("syntax error elsewhere", format!("the first error in a file isn't reported there: {}", what(d))),
        }
    }
    let expected: Vec<&Diag> = v.load.iter().chain(&v.semantic).collect();
    for d in &expected {
        if !shown.iter().any(|x| covers(d, x)) {
            return fail("error not reported", format!("this isn't reported where it is: {}", what(d)));
        }
    }
    for x in &shown {
        let from_syntax = v.syntax.iter().any(|d| d.path == x.path);
        if !from_syntax && !expected.iter().any(|d| covers(d, x)) {
            return fail("error without cause", format!("nothing is wrong there: {x:?}; expected {}", why(&v)));
        }
    }
    if v.syntax.is_empty() && shown.len() != expected.len() {
        return fail("number of errors", format!("{} errors for {}; the tool wrote:\n{}", shown.len(), why(&v), clip(&err, 1500)));
    }
    Ok(info)
}

// ---- C17: imports ----

fn outputs(sc: &Scratch, cwd: &Path, main: &str, tag: &str) -> Result<(Run, Vec<u8>, Vec<u8>), Failure> {
    let rs = sc.path().join(format!("{tag}.rs"));
    let ts = sc.path().join(format!("{tag}.ts"));
    let r = run_tool(
        cwd,
        &["generate", main, "--list-schemas", "--rust", &rs.to_string_lossy(), "--typescript", &ts.to_string_lossy()],
    );
    if !r.ok() {
        return fail("valid set rejected", format!("a valid set is rejected: {}: {}", r.how(), clip(&r.err(), 800)));
    }
    let a = std::fs::read(&rs).unwrap_or_default();
    let b = std::fs::read(&ts).unwrap_or_default();
    std::fs::remove_file(&rs).ok();
    std::fs::remove_file(&ts).ok();
    if a.is_empty() || b.is_empty() {
        return fail("no output", "the requested code wasn't written");
    }
    Ok((r, a, b))
}

fn listed(base: &Path, r: &Run) -> Result<Vec<String>, Failure> {
    let mut v = vec![];
    for l in r.out().lines() {
        match base.join(l).canonicalize() {
            Ok(p) => v.push(p.to_string_lossy().into_owned()),
            Err(_) => return fail("listed path", format!("the listed path {l:?} doesn't exist")),
        }
    }
    Ok(v)
}

/// Put a file somewhere in the scratch directory unless something is there.
fn decoy(sc: &Scratch, dir: &str, path: &str) -> bool {
    if path.starts_with('/') || path.is_empty() || path.ends_with('/') {
        return false;
    }
    let mut parts: Vec<&str> = dir.split('/').filter(|x| !x.is_empty()).collect();
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if parts.pop().is_none() {
                    return false;
                }
            }
            c => parts.push(c),
        }
    }
    if parts.is_empty() || parts[0] == "plain" {
        return false;
    }
    for k in 1..=parts.len() {
        let p = sc.path().join(parts[..k].join("/"));
        if p.exists() && (k == parts.len() || !p.is_dir()) {
            return false;
        }
    }
    sc.put(&parts.join("/"), b"struct ZzDecoy {\n  decoy: U64 = 0\n}\n");
    true
}

fn c17(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let mut m = make(s);
    for _ in 0..3 {
        if m.set.files.len() < 2 {
            m = make(s);
        }
    }
    let names = odd_file_names(s, &m.set);
    rename_files(&m.set, &mut m.raw, &names);
    let mut dirs = odd_dirs(s, &m.set, &names);
    dirs.apply(&mut m.raw);
    // Files that nothing imports, which needn't even be well-formed.
    let mut noise = 0;
    for k in 0..s.below(3) {
        let p = format!("zz_unrelated_{k}.t");
        sc.put(&format!("in/{p}"), b"struct {{{ '");
        noise += 1;
    }
    // More imports of what is there, in unusual spellings; cycles among files are fine.
    let base = sc.path().canonicalize().expect("directory");
    let base_in = base.join("in").to_string_lossy().into_owned();
    for k in 0..s.below(4) {
        let (a, b) = (s.size(m.set.files.len()), s.size(m.set.files.len()));
        let (from, to) = (m.set.files[a].clone(), m.set.files[b].clone());
        let mut p = dirs.path(&respell(s, &from, &to));
        if let Some(n) = &names[b] {
            p = renamed(&p, n);
        }
        if s.chance(1, 6) {
            p = format!("{base_in}/{}", m.raw.files[b].0);
        }
        m.raw.files[a].1.imports.push(RImport { path: p, alias: Some(format!("zz_{k}")) });
    }
    let mirrored = if s.chance(1, 4) { mirror(s, &mut m.raw, &base_in) } else { None };
    let n = m.raw.files.len();
    let mut ts = texts(&m.raw, s);
    put_all(sc, "in", &ts);
    if let Some((_, others)) = &mirrored {
        for (p, f) in others {
            sc.put(&format!("in/{p}"), plain(f).as_bytes());
            noise += 1;
        }
    }
    let mut plain_copies = vec![];
    if let Some((was, _)) = &mirrored {
        for (p, f) in &m.raw.files[*was..] {
            let mut f = f.clone();
            for i in &mut f.imports {
                if i.alias.is_none() {
                    i.alias = raw::stem(&i.path);
                }
                let Some(to) = leads(&base_in, p, &i.path) else { panic!("{} from {p}", i.path) };
                i.path = plain_path(p, &to);
            }
            plain_copies.push((p.clone(), f));
        }
    }
    // Links to directories and files: what is imported through them is where they lead.
    let links = usize::from(s.chance(1, 4));
    if links > 0 {
        for k in 0..s.range(1, 2) {
            let (a, b) = (s.size(n), s.size(n));
            let to = m.raw.files[b].0.clone();
            let link = format!("zz_link_{k}");
            let path = match to.rfind('/') {
                Some(j) if s.chance(1, 2) => {
                    std::os::unix::fs::symlink(Path::new(&base_in).join(&to[..j]), Path::new(&base_in).join(&link)).ok();
                    format!("{link}/{}", &to[j + 1..])
                }
                _ => {
                    std::os::unix::fs::symlink(&to, Path::new(&base_in).join(format!("{link}.t"))).ok();
                    format!("{link}.t")
                }
            };
            let from = m.raw.files[a].0.clone();
            // In place of the usual path, or as one more import.
            let same = m.raw.files[a].1.imports.iter().position(|i| leads(&base_in, &from, &i.path).as_ref() == Some(&to));
            let path = plain_path(&from, &path);
            match same {
                Some(i) => {
                    let i = &mut m.raw.files[a].1.imports[i];
                    if i.alias.is_none() {
                        i.alias = raw::stem(&i.path);
                    }
                    i.path = path;
                }
                None => m.raw.files[a].1.imports.push(RImport { path, alias: Some(format!("zz_l{k}")) }),
            }
        }
        ts = texts(&m.raw, s);
        put_all(sc, "in", &ts);
    }
    // Well-formed files where the imports would lead if they were relative to something else, or named something else.
    let mut decoys = 0;
    if s.chance(1, 2) {
        for (f, x) in &m.raw.files {
            let dir = f.rfind('/').map_or("", |k| &f[..k]);
            for i in &x.imports {
                let (a, b) = (format!("{}.t", i.path), i.path.strip_suffix(".t").unwrap_or("").to_owned());
                let c = i.path.rsplit('/').next().unwrap_or("").to_owned();
                for p in [&i.path, &a, &b, &c] {
                    for d in ["in".to_owned(), String::new(), format!("in/{dir}")] {
                        decoys += usize::from(decoy(sc, &d, p));
                    }
                }
            }
        }
    }
    let main = &m.raw.files[0].0;
    let spelling = match s.below(5) {
        0 => format!("in/{main}"),
        4 => {
            std::os::unix::fs::symlink(&base_in, base.join("zz_to_in")).ok();
            format!("zz_to_in/{main}")
        }
        1 => format!("./in/{main}"),
        2 => base.join("in").join(main).to_string_lossy().into_owned(),
        _ => format!("in/../in//{main}"),
    };
    let (r, rust, typescript) = outputs(sc, sc.path(), &spelling, "a")?;
    let got = listed(&base, &r)?;
    let mut want: Vec<String> =
        m.raw.files.iter().map(|f| base.join("in").join(&f.0).to_string_lossy().into_owned()).collect();
    let mut sorted = got.clone();
    sorted.sort();
    want.sort();
    if sorted != want {
        return fail("wrong list", format!("--list-schemas: {sorted:?}; expected {want:?}"));
    }
    // The plain spelling means the same.
    let mut plain_set = m.set.clone();
    for f in &mut plain_set.files {
        for i in &mut f.imports {
            i.path = None;
        }
    }
    let mut p = raw(&plain_set, None);
    rename_files(&m.set, &mut p, &names);
    dirs.apply(&mut p);
    if let Some((was, _)) = mirrored {
        for k in was..n {
            p.files[0].1.imports.push(RImport { path: plain_path(main, &m.raw.files[k].0), alias: Some(format!("zz_m{k}")) });
        }
    }
    p.files.extend(plain_copies);
    let pts: Vec<(String, String)> = p.files.iter().map(|(n, f)| (n.clone(), plain(f))).collect();
    put_all(sc, "plain", &pts);
    let (_, rust2, typescript2) = outputs(sc, sc.path(), &format!("plain/{main}"), "b")?;
    if rust != rust2 || typescript != typescript2 {
        return fail("resolution", format!("other spellings of the same imports give other code; the plain ones:\n{}", show(&pts)));
    }
    // Every one of the files is needed.
    let mut runs = 2;
    if n > 1 && s.chance(1, 2) {
        runs += 1;
        let gone = s.range(1, n as u64 - 1) as usize;
        std::fs::remove_file(sc.path().join("in").join(&m.raw.files[gone].0)).expect("file");
        let r = run_tool(sc.path(), &["generate", &spelling, "--list-schemas"]);
        tidy(&r, "generate without one of the files")?;
        if r.ok() {
            return fail("missing file", format!("generate succeeds without {}: {}", m.raw.files[gone].0, r.out()));
        }
    }
    Ok(Info {
        nontrivial: m.raw.files.len() > 1,
        hash: hash_texts(&ts),
        classes: vec![
            if m.raw.files.len() > 2 { "three files or more" } else { "one or two files" },
            if noise + decoys > 0 { "with unrelated files" } else { "without unrelated files" },
            if mirrored.is_some() {
                "with a copy of a directory"
            } else if links > 0 {
                "with links"
            } else if dirs.is_some() {
                "with odd names of directories"
            } else if names.iter().any(Option::is_some) {
                "with odd file names"
            } else { "with usual file names" },
        ],
        runs,
        sample: Some(format!("{spelling}: {got:?}\n{}", show(&ts))),
    })
}

// ---- C18, C19: the formatter ----

fn squeeze(c: &[String]) -> Vec<Vec<String>> {
    c.iter()
        .map(|p| p.split_whitespace().map(str::to_owned).collect::<Vec<_>>())
        .filter(|p: &Vec<String>| !p.is_empty())
        .collect()
}

fn norm_ty(t: &RTy) -> RTy {
    match t {
        RTy::Prim(p) => RTy::Prim(p),
        RTy::Arr(t) => RTy::Arr(Box::new(norm_ty(t))),
        RTy::Named(i, n) => RTy::Named(i.as_ref().map(|i| ident(i)), ident(n)),
    }
}

type NormDecl = (Vec<Vec<String>>, bool, String, Vec<(Vec<Vec<String>>, Rule, String, RTy, u64)>, BTreeSet<u64>);

/// What a file means.
fn norm(f: &RFile) -> (Vec<Vec<String>>, BTreeMap<String, String>, Vec<NormDecl>) {
    (
        squeeze(&f.comment),
        f.imports.iter().map(|i| (i.name(), i.path.clone())).collect(),
        f.decls
            .iter()
            .map(|d| {
                (
                    squeeze(&d.comment),
                    d.choice,
                    ident(&d.name),
                    d.fields
                        .iter()
                        .map(|x| {
                            let t = x.ty.as_ref().map_or(RTy::Prim("Unit"), norm_ty);
                            (squeeze(&x.comment), x.rule, ident(&x.name), t, x.index)
                        })
                        .collect(),
                    d.deleted.iter().flatten().copied().collect(),
                )
            })
            .collect(),
    )
}

/// A set of files that load, and perhaps validate.
fn make_loadable(sc: &Scratch, s: &mut Src) -> Option<(Broken, Verdict)> {
    let b = if s.chance(2, 3) {
        let mut m = make(s);
        let names = odd_file_names(s, &m.set);
        rename_files(&m.set, &mut m.raw, &names);
        odd_dirs(s, &m.set, &names).apply(&mut m.raw);
        if s.chance(1, 8) {
            mirror(s, &mut m.raw, "/in");
        }
        let ts = texts(&m.raw, s);
        put_all(sc, "in", &ts);
        Broken { main: m.raw.files[0].0.clone(), classes: vec!["valid"], ts }
    } else {
        make_broken(sc, s)
    };
    let v = verdict(sc, &b.main);
    if v.loads() {
        Some((b, v))
    } else {
        None
    }
}

fn skipped() -> Result<Info, Failure> {
    Ok(Info { classes: vec!["skipped: doesn't load"], runs: 1, ..Info::default() })
}

fn c18(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let Some((b, v)) = make_loadable(sc, s) else { return skipped() };
    sc.put("in/zz_unrelated.t", b"struct  {  }");
    let main = format!("in/{}", b.main);
    let before = sc.snapshot();
    let code = if v.valid() { Some(outputs(sc, sc.path(), &main, "a")?) } else { None };
    let r = run_tool(sc.path(), &["format", &main]);
    if !r.ok() {
        return fail("format fails", format!("format fails on files that load: {}: {}", r.how(), clip(&r.err(), 800)));
    }
    let loaded: HashSet<String> = v.files.values().map(|l| format!("in/{}", l.rel)).collect();
    let after = sc.snapshot();
    if before.iter().map(|x| &x.0).ne(after.iter().map(|x| &x.0)) {
        return fail("other files", format!("format created or removed files: {:?}", after.iter().map(|x| &x.0).collect::<Vec<_>>()));
    }
    for (x, y) in before.iter().zip(&after) {
        if x.1 != y.1 && !loaded.contains(&x.0) {
            return fail("other files", format!("format changed {}, which nothing imports", x.0));
        }
    }
    let mut changed = false;
    for l in v.files.values() {
        let text = sc.text(&format!("in/{}", l.rel));
        changed |= text != l.text;
        let again = match lex(&text).map_err(|e| format!("{e:?}")).and_then(|t| parse(&t).map_err(|k| format!("token {k}"))) {
            Ok(x) => x.0,
            Err(e) => return fail("not a schema", format!("{} isn't a schema after formatting: {e}\n--- before\n{}", l.rel, l.text)),
        };
        let (x, y) = (norm(&l.file), norm(&again));
        if x != y {
            let what = if x.0 != y.0 || x.2.iter().zip(&y.2).any(|(a, b)| a.0 != b.0 || a.3.iter().zip(&b.3).any(|(a, b)| a.0 != b.0)) {
                "comments changed"
            } else if x.1 != y.1 {
                "imports changed"
            } else {
                "declarations changed"
            };
            return fail(what, format!("formatting changed what {} says; it was\n{x:?}\nand is\n{y:?}\n--- before\n{}", l.rel, l.text));
        }
    }
    if let Some((_, rust, ts)) = code {
        let (_, rust2, ts2) = outputs(sc, sc.path(), &main, "b")?;
        if rust != rust2 || ts != ts2 {
            return fail("code changed", "formatting changed the generated code");
        }
    }
    let mut classes = b.classes.clone();
    classes.push(if v.valid() { "valid" } else { "not valid, but loads" });
    Ok(Info {
        nontrivial: changed,
        hash: hash_texts(&b.ts),
        classes,
        runs: 1,
        sample: Some(show(&b.ts)),
    })
}

fn c19(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let Some((b, v)) = make_loadable(sc, s) else { return skipped() };
    let main = format!("in/{}", b.main);
    let before = sc.snapshot();
    let check = run_tool(sc.path(), &["format", "--check", &main]);
    tidy(&check, "format --check")?;
    if sc.snapshot() != before {
        return fail("check writes", "format --check changed files");
    }
    let r = run_tool(sc.path(), &["format", &main]);
    if !r.ok() {
        return fail("format fails", format!("format fails on files that load: {}: {}", r.how(), clip(&r.err(), 800)));
    }
    let once = sc.snapshot();
    let changed = once != before;
    if check.ok() == changed {
        return fail(
            "check disagrees",
            format!("format --check: {}, but format {} files", check.how(), if changed { "changes" } else { "doesn't change" }),
        );
    }
    let check2 = run_tool(sc.path(), &["format", "--check", &main]);
    let r2 = run_tool(sc.path(), &["format", &main]);
    let twice = sc.snapshot();
    if !r2.ok() {
        return fail("format fails again", format!("formatting again fails: {}: {}", r2.how(), clip(&r2.err(), 800)));
    }
    if once != twice {
        let d: Vec<String> = once
            .iter()
            .zip(&twice)
            .filter(|(a, b)| a != b)
            .map(|(a, b)| {
                let t = |x: &Option<Vec<u8>>| String::from_utf8_lossy(x.as_deref().unwrap_or_default()).into_owned();
                format!("--- {} once\n{}\n--- twice\n{}", a.0, t(&a.1), t(&b.1))
            })
            .collect();
        return fail("not idempotent", format!("formatting again changes something:\n{}", d.join("\n")));
    }
    if !check2.ok() {
        return fail("check fails after format", format!("format --check fails after format: {}", clip(&check2.err(), 500)));
    }
    // One blank for another, where it can't matter: that isn't the form, and it is restored.
    let mut classes = b.classes.clone();
    let files: Vec<String> = v.files.values().map(|l| format!("in/{}", l.rel)).collect();
    let path = s.pick(&files).clone();
    let text = sc.text(&path);
    let lines: Vec<&str> = text.split('\n').collect();
    let calm = |i: usize| !lines.get(i).is_some_and(|l| l.contains(['#', '\'']));
    let mut places = vec![];
    let mut at = 0;
    for (i, l) in lines.iter().enumerate() {
        if calm(i) && calm(i + 1) && (i == 0 || calm(i - 1)) {
            places.extend(l.char_indices().filter(|c| c.1 == ' ').map(|c| at + c.0));
            if i + 1 < lines.len() {
                places.push(at + l.len());
            }
        }
        at += l.len() + 1;
    }
    if !places.is_empty() {
        let k = *s.pick(&places);
        let mut other = text.clone().into_bytes();
        let blanks: Vec<u8> = b" \n\t\r".iter().copied().filter(|b| *b != other[k]).collect();
        other[k] = *s.pick(&blanks);
        sc.put(&path, &other);
        let check = run_tool(sc.path(), &["format", "--check", &main]);
        let r = run_tool(sc.path(), &["format", &main]);
        if check.ok() || !r.ok() || sc.text(&path) != text {
            return fail(
                "another blank",
                format!(
                    "with another blank in {path}, format --check: {}, format: {}, and the file is {}restored:\n{}",
                    check.how(),
                    r.how(),
                    if sc.text(&path) == text { "" } else { "not " },
                    String::from_utf8_lossy(&other)
                ),
            );
        }
        classes.push("with another blank");
    }
    // Other layouts of the same files have the same form, unless there are comments.
    classes.push(if changed { "changed" } else { "already formatted" });
    let mut runs = 1;
    if s.chance(1, 2) {
        runs += 1;
        let mut ts = vec![];
        for l in v.files.values() {
            ts.push((l.rel.clone(), layout(&l.file, s)));
        }
        put_all(sc, "other", &ts);
        for (p, c) in &before {
            if let (Some(rel), Some(c)) = (p.strip_prefix("in/"), c) {
                if !sc.path().join("other").join(rel).exists() {
                    put(&sc.path().join("other"), rel, c);
                }
            }
        }
        let r = run_tool(sc.path(), &["format", &format!("other/{}", b.main)]);
        if !r.ok() {
            return fail("format fails on another layout", format!("{}: {}", r.how(), clip(&r.err(), 800)));
        }
        for l in v.files.values() {
            let (x, y) = (sc.text(&format!("in/{}", l.rel)), sc.text(&format!("other/{}", l.rel)));
            if x != y {
                return fail(
                    "form depends on layout",
                    format!("two layouts of {} are formatted differently:\n--- one\n{x}\n--- other\n{y}", l.rel),
                );
            }
        }
        classes.push("with another layout");
    }
    Ok(Info { nontrivial: changed, hash: hash_texts(&b.ts), classes, runs, sample: Some(show(&b.ts)) })
}

// ---- C20: failures leave everything alone ----

fn c20(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let b = make_broken(sc, s);
    let v = verdict(sc, &b.main);
    let main = format!("in/{}", b.main);
    let mut classes = b.classes.clone();
    let old = s.chance(1, 2);
    let (rs, ts) = ("out/deep/code.rs", "out/code.ts");
    if old {
        sc.put(rs, b"old Rust\n");
        sc.put(ts, b"old TypeScript\n");
    }
    let info = |classes: Vec<&'static str>| Info {
        nontrivial: true,
        hash: hash_texts(&b.ts),
        classes,
        runs: 1,
        sample: Some(format!("{}\n{}", why(&v), show(&b.ts))),
    };
    if v.valid() {
        // Where the code can't be written.
        let kind = s.below(4);
        let (r, t, class) = match kind {
            0 => ("in", ts, "output is a directory"),
            1 => (rs, ".", "output is a directory"),
            2 => (main.as_str(), "in/nothing/x.ts", ""),
            _ => (rs, "blocked/x.ts", "output below a file"),
        };
        if kind == 2 {
            // Nothing to check: the user asked for it. Only look at the list.
            let before = sc.snapshot();
            let run = run_tool(sc.path(), &["generate", &main, "--list-schemas"]);
            if !run.ok() || sc.snapshot() != before {
                return fail("listing", format!("generate --list-schemas: {} (or files changed)", run.how()));
            }
            classes.push("only listed");
            return Ok(info(classes));
        }
        sc.put("blocked", b"a file\n");
        let before = sc.snapshot();
        let run = run_tool(sc.path(), &["generate", &main, "--rust", r, "--typescript", t]);
        tidy(&run, "generate")?;
        if run.ok() {
            return fail("success without output", format!("generate succeeded although {r} or {t} can't be written"));
        }
        let after = sc.snapshot();
        let outs: HashSet<&str> = [rs, ts, "out", "out/deep"].into_iter().collect();
        for (p, c) in &before {
            if !outs.contains(p.as_str()) && !after.iter().any(|x| x.0 == *p && x.1 == *c) {
                return fail("other files", format!("a failed run changed {p}"));
            }
        }
        for (p, _) in &after {
            if !outs.contains(p.as_str()) && !before.iter().any(|x| x.0 == *p) {
                return fail("other files", format!("a failed run created {p}"));
            }
        }
        classes.push(class);
        return Ok(info(classes));
    }
    let before = sc.snapshot();
    let mut args = vec!["generate", main.as_str(), "--rust", rs, "--typescript", ts];
    if s.chance(1, 2) {
        args.push("--list-schemas");
    }
    let run = run_tool(sc.path(), &args);
    tidy(&run, "generate")?;
    if run.ok() {
        // C16's concern.
        return Ok(info(vec!["accepted"]));
    }
    if sc.snapshot() != before {
        return fail("failed generate writes", "a failed generate changed files");
    }
    if !run.stdout.is_empty() {
        return fail("failed generate prints", format!("a failed generate wrote to the standard output: {}", clip(&run.out(), 300)));
    }
    classes.push("generate");
    if !v.loads() {
        let run = run_tool(sc.path(), &["format", &main]);
        tidy(&run, "format")?;
        if run.ok() {
            return fail("format succeeds", format!("format succeeds although the files don't load: {}", why(&v)));
        }
        if sc.snapshot() != before {
            return fail("failed format writes", "a failed format changed files");
        }
        classes.push("format");
    }
    Ok(info(classes))
}

// ---- C21: the output depends on nothing else ----

fn c21(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let m = make(s);
    let ts = texts(&m.raw, s);
    put_all(sc, "in", &ts);
    let main = &m.raw.files[0].0;
    let (r0, rust, typescript) = outputs(sc, sc.path(), &format!("in/{main}"), "a")?;
    let base = sc.path().canonicalize().expect("directory");
    let mut runs = 1;
    let mut classes = vec![];
    let check = |what: &str, a: &[u8], b: &[u8]| -> Result<(), Failure> {
        if (!a.is_empty() && a != rust) || (!b.is_empty() && b != typescript) {
            return fail(&format!("differs: {what}"), format!("the generated code differs: {what}"));
        }
        Ok(())
    };
    for _ in 0..2 {
        runs += 1;
        match s.below(7) {
            0 => {
                let (r, a, b) = outputs(sc, sc.path(), &format!("in/{main}"), "b")?;
                check("second run", &a, &b)?;
                if r.stdout != r0.stdout {
                    return fail("differs: list", "the list of schemas differs between runs");
                }
                classes.push("second run");
            }
            1 => {
                let dir = sc.path().join("in");
                let (_, a, b) = outputs(sc, &dir, main, "b")?;
                check("other working directory", &a, &b)?;
                classes.push("other working directory");
            }
            2 => {
                let p = base.join("in").join(main);
                let (_, a, b) = outputs(sc, Path::new("/"), &p.to_string_lossy(), "b")?;
                check("absolute path", &a, &b)?;
                classes.push("absolute path");
            }
            3 => {
                run_tool(sc.path(), &["generate", &format!("in/{main}"), "--rust", "only/x/code"]);
                run_tool(sc.path(), &["generate", &format!("in/{main}"), "--typescript", "only/y/code"]);
                let (a, b) = (sc.read("only/x/code").unwrap_or_default(), sc.read("only/y/code").unwrap_or_default());
                if a.is_empty() || b.is_empty() {
                    return fail("no output", "the code for one language alone wasn't written");
                }
                check("separate runs", &a, &b)?;
                classes.push("separate runs");
            }
            4 => {
                // Elsewhere, written in another order, with other files around.
                let mut order: Vec<usize> = (0..ts.len()).collect();
                s.shuffle(&mut order);
                order.reverse();
                sc.put("moved/to/a/place/zz_more.t", b"struct Other {\n}\n");
                for i in order {
                    put_all(sc, "moved/to/a/place", &[ts[i].clone()]);
                }
                let (_, a, b) = outputs(sc, sc.path(), &format!("moved/to/a/place/{main}"), "b")?;
                check("moved", &a, &b)?;
                classes.push("moved");
            }
            5 => {
                // Over old contents: longer, shorter, of the same length, and nearly the same.
                let mut old_rust = rust.clone();
                let mut old_typescript = typescript.clone();
                for old in [&mut old_rust, &mut old_typescript] {
                    match s.below(5) {
                        0 => old.extend_from_slice(b"// and more\n"),
                        1 => *old = vec![b'x'; 200_000],
                        2 => old.truncate(s.size(old.len())),
                        3 => {
                            let i = s.size(old.len());
                            old[i] = if old[i] == b'0' { b'1' } else { b'0' };
                        }
                        _ => old.reverse(),
                    }
                }
                sc.put("old.rs", &old_rust);
                sc.put("old.ts", &old_typescript);
                let path = format!("in/{main}");
                let mut args = vec!["generate", &path];
                let which = s.below(4);
                if which != 2 {
                    args.extend(["--rust", "old.rs"]);
                } else {
                    sc.put("old.rs", &rust);
                }
                if which != 3 {
                    args.extend(["--typescript", "old.ts"]);
                } else {
                    sc.put("old.ts", &typescript);
                }
                if s.chance(1, 4) {
                    args.push("--list-schemas");
                }
                run_tool(sc.path(), &args);
                check("over old files", &sc.read("old.rs").unwrap_or_default(), &sc.read("old.ts").unwrap_or_default())?;
                classes.push("over old files");
            }
            _ => {
                let (_, a, b) = outputs(sc, sc.path(), &format!("./in/.././in/{main}"), "b")?;
                check("roundabout path", &a, &b)?;
                classes.push("roundabout path");
            }
        }
    }
    Ok(Info { nontrivial: m.set.types().len() >= 2, hash: hash_texts(&ts), classes, runs, sample: Some(show(&ts)) })
}

// ---- C22: what is written differently but means the same ----

fn c22(sc: &Scratch, s: &mut Src) -> Result<Info, Failure> {
    let o = opts(s);
    let set = gen_set(s, &o);
    let plain_raw = raw(&set, None);
    let pts: Vec<(String, String)> = plain_raw.files.iter().map(|(n, f)| (n.clone(), plain(f))).collect();
    put_all(sc, "in", &pts);
    let main = plain_raw.files[0].0.clone();
    let (_, rust, typescript) = outputs(sc, sc.path(), &format!("in/{main}"), "a")?;
    let mut other = set.clone();
    let mut classes = vec!["layout and spelling"];
    for f in 0..other.files.len() {
        if s.chance(1, 3) {
            // Other names for imports.
            let mut used = HashSet::new();
            for k in 0..other.files[f].imports.len() {
                let n = gen_name(s, &o, Scope::Import, &mut used);
                other.files[f].imports[k].alias = Some(n);
            }
            classes.push("imports renamed");
        }
        if s.chance(1, 3) {
            let mut v = std::mem::take(&mut other.files[f].imports);
            s.shuffle(&mut v);
            other.files[f].imports = v;
        }
        if s.chance(1, 2) {
            other.files[f].comment = crate::gen::gen_comment(s);
        }
        for d in &mut other.files[f].decls {
            if s.chance(1, 3) {
                d.comment = crate::gen::gen_comment(s);
            }
            if s.chance(1, 3) {
                s.shuffle(&mut d.deleted);
            }
            for x in &mut d.fields {
                if s.chance(1, 5) {
                    x.comment = crate::gen::gen_comment(s);
                }
            }
        }
    }
    let r = raw(&other, Some(s));
    let ts: Vec<(String, String)> = r.files.iter().map(|(p, f)| (p.clone(), layout(f, s))).collect();
    put_all(sc, "other", &ts);
    let (_, rust2, typescript2) = outputs(sc, sc.path(), &format!("other/{main}"), "b")?;
    if rust != rust2 {
        return fail("Rust differs", format!("another way to write the same gives other Rust:\n{}", first_difference(&rust, &rust2)));
    }
    if typescript != typescript2 {
        return fail("TypeScript differs", format!("another way to write the same gives other TypeScript:\n{}", first_difference(&typescript, &typescript2)));
    }
    Ok(Info { nontrivial: !set.types().is_empty(), hash: hash_texts(&ts), classes, runs: 1, sample: Some(show(&ts)) })
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("< {x}\n> {y}");
        }
    }
    "the lengths differ".into()
}

// ---- the list ----

pub fn plan(ctx: &Ctx, id: &str) -> Option<CliPlan> {
    let p = |cases: usize, case: Box<CliCase>, rule: &'static str| CliPlan {
        cases,
        case,
        rule,
        assume: vec![],
        witnesses: vec![],
    };
    Some(match id {
        "C15" => CliPlan {
            witnesses: vec![
                ("deep-array-types", deep(60_000)),
                ("long-chains-of-types", chain(60_000)),
                ("options-with-other-bytes", odd_option()),
            ],
            ..p(
                ctx.n(16_000, 150_000),
                Box::new(c15),
                "A case is one run of the tool with generated arguments on generated files: valid sets, sets with semantic or \
                 lexical damage, token soup, arbitrary bytes, and long or deep inputs. Non-trivial: more than ten bytes of \
                 input; distinct by files and arguments.",
            )
        },
        "C16" => p(
            ctx.n(16_000, 150_000),
            Box::new(c16),
            "A case is a generated set of schema files, unchanged or with one or two random changes, judged by the reference \
             parser, loader and validator and by the tool. Non-trivial: more than 40 bytes; distinct by the files' text.",
        ),
        "C17" => p(
            ctx.n(8_000, 100_000),
            Box::new(c17),
            "A case is a generated tree of files with imports in various spellings (and files which nothing imports). \
             Non-trivial: more than one file is loaded; distinct by the files' text.",
        ),
        "C18" => p(
            ctx.n(5_000, 80_000),
            Box::new(c18),
            "A case is a generated set of files that load, in random layouts and spellings and with comments. Non-trivial: \
             formatting changes a file; distinct by the files' text.",
        ),
        "C19" => p(
            ctx.n(5_000, 80_000),
            Box::new(c19),
            "A case is a generated set of files that load, in random layouts and spellings and with comments. Non-trivial: \
             formatting changes a file; distinct by the files' text.",
        ),
        "C20" => p(
            ctx.n(10_000, 100_000),
            Box::new(c20),
            "A case is a failing run of generate (and of format): an invalid set of files, or a valid one and a place where \
             the code can't be written. Distinct by the files' text.",
        ),
        "C21" => p(
            ctx.n(6_000, 60_000),
            Box::new(c21),
            "A case is a generated valid set of files and further runs of generate under other circumstances. Non-trivial: at \
             least two types; distinct by the files' text.",
        ),
        "C22" => p(
            ctx.n(10_000, 100_000),
            Box::new(c22),
            "A case is a generated valid set of files in the usual form, and in another layout with other spellings of names, \
             sigils, explicit Unit types, comments, other names and orders of imports. Non-trivial: there is a type; distinct \
             by the second form's text.",
        ),
        "C23" => p(
            ctx.n(16_000, 150_000),
            Box::new(c23),
            "A case is a generated set of schema files with one or two random changes; the expected errors and their places \
             are those of the reference parser, loader and validator. Non-trivial: the set is invalid; distinct by the files' \
             text.",
        ),
        _ => return None,
    })
}
