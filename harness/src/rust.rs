//! Generating code for sets of schemas, and compiling it into executors.

use crate::cli::{limit, put, run_tool, Run};
use crate::glue::glue;
use crate::model::Set;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn vlib() -> PathBuf {
    PathBuf::from(std::env::var("VH_VLIB").expect("VH_VLIB"))
}

/// A set with the code that the tool generated for it.
pub struct Generated {
    pub set: Set,
    pub key: String,
    pub rust: PathBuf,
    pub ts: PathBuf,
}

/// Write the set's files below `dir`/`key` and run the tool on the main one.
pub fn generate(dir: &Path, key: &str, set: &Set) -> Result<Generated, Run> {
    for (p, t) in set.texts() {
        put(dir, &format!("{key}/{p}"), t.as_bytes());
    }
    let main = format!("{key}/{}", set.files[0].path());
    let (r, t) = (format!("{key}.rs"), format!("{key}.ts"));
    let run = run_tool(dir, &["generate", &main, "--rust", &r, "--typescript", &t]);
    if !run.ok() {
        return Err(run);
    }
    Ok(Generated { set: set.clone(), key: key.to_owned(), rust: dir.join(r), ts: dir.join(t) })
}

/// A crate's main file that serves the given types.
pub fn main_file(gens: &[&Generated], extra: &dyn Fn(&Generated) -> String) -> String {
    let mut s = String::from("#![allow(warnings)]\n");
    for g in gens {
        let k = &g.key;
        write!(
            s,
            "mod {k} {{
use vlib::value::Val;
use vlib::exec::{{TypeOps, unit_array}};
use std::io::{{self, BufRead, Write}};
#[path = {:?}]
pub mod p;
{}{}
}}
",
            g.rust,
            glue(&g.set, "p", k),
            extra(g)
        )
        .unwrap();
    }
    s.push_str("#[global_allocator]\nstatic ALLOCATOR: vlib::exec::Counting = vlib::exec::Counting;\n");
    s.push_str("fn main() {\n    let mut m = vec![];\n");
    for g in gens {
        writeln!(s, "    {}::register(&mut m);", g.key).unwrap();
    }
    s.push_str("    vlib::exec::serve(m);\n}\n");
    s
}

fn rustc(dir: &Path, name: &str, source: &str, metadata_only: bool) -> Result<PathBuf, String> {
    let main = dir.join(format!("{name}.main.rs"));
    std::fs::write(&main, source).expect("write");
    let exe = dir.join(format!("{name}.exe"));
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-name", "executor", "-C", "opt-level=0", "-C", "debuginfo=0"])
        .args(["-C", "debug-assertions=on", "-C", "overflow-checks=on", "--extern"])
        .arg(format!("vlib={}", vlib().display()))
        .arg(&main)
        .current_dir(dir)
        .stdin(Stdio::null());
    if metadata_only {
        c.args(["--emit", "metadata", "-o"]).arg(dir.join(format!("{name}.rmeta")));
    } else {
        c.arg("-o").arg(&exe);
    }
    limit(&mut c, 600, 0);
    let o = c.output().expect("cannot run rustc");
    if o.status.success() {
        Ok(exe)
    } else {
        Err(String::from_utf8_lossy(&o.stderr).into_owned())
    }
}

pub fn compile(dir: &Path, name: &str, gens: &[&Generated]) -> Result<PathBuf, String> {
    rustc(dir, name, &main_file(gens, &|_| String::new()), false)
}

pub fn check(dir: &Path, name: &str, gens: &[&Generated]) -> Result<(), String> {
    check_with(dir, name, gens, &|_| String::new())
}

/// Check the types, with more code for each set.
pub fn check_with(
    dir: &Path,
    name: &str,
    gens: &[&Generated],
    extra: &dyn Fn(&Generated) -> String,
) -> Result<(), String> {
    rustc(dir, name, &main_file(gens, extra), true).map(|_| ())
}

/// The first error of a compiler's output.
pub fn first_error(s: &str) -> String {
    let lines: Vec<&str> = s.lines().collect();
    let start = lines.iter().position(|l| l.starts_with("error") || l.contains("error TS")).unwrap_or(0);
    lines[start..lines.len().min(start + 8)].join("\n")
}

pub struct Group {
    pub gens: Vec<Generated>,
    /// Absent if none of the group's sets compiled.
    pub exe: Option<PathBuf>,
    pub dropped: Vec<(String, String)>,
}

/// Compile one group; on failure compile its members one by one and leave out those that fail.
pub fn build_group(dir: &Path, name: &str, gens: Vec<Generated>) -> Group {
    let refs: Vec<&Generated> = gens.iter().collect();
    if let Ok(exe) = compile(dir, name, &refs) {
        return Group { gens, exe: Some(exe), dropped: vec![] };
    }
    let mut good = vec![];
    let mut dropped = vec![];
    for g in gens {
        match check(dir, &format!("{name}_{}", g.key), &[&g]) {
            Ok(()) => good.push(g),
            Err(e) => dropped.push((g.key.clone(), first_error(&e))),
        }
    }
    if good.is_empty() {
        return Group { gens: good, exe: None, dropped };
    }
    let refs: Vec<&Generated> = good.iter().collect();
    let exe = compile(dir, name, &refs).ok();
    if exe.is_none() {
        for g in good.drain(..) {
            dropped.push((g.key.clone(), "does not link".into()));
        }
    }
    Group { gens: good, exe, dropped }
}
