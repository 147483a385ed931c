//! The checks which hand generated code to the compilers of its languages.

use crate::cli::{limit, put, run_tool, Scratch};
use crate::code::parallel;
use crate::draw::{mix, shrink, Src};
use crate::gen::{gen_set, Opts};
use crate::glue::rust_type;
use crate::json::{obj, J};
use crate::model::{Rule, Set, Ty};
use crate::report::{clip, Ctx, Failure, Info};
use crate::rust::{check_with, first_error, generate, Generated};
use crate::ts;
use std::fmt::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};

/// Compile some generated code; the positions of what doesn't compile, and the errors.
type Compile = fn(&Path, &[Generated]) -> Vec<(usize, String)>;

struct Shape {
    sets: usize,
    batch: usize,
    /// How many times to compile while simplifying a failure.
    tries: usize,
    compile: Compile,
    /// Fixed trees of files of the known findings, the main one first.
    witnesses: Vec<(&'static str, Vec<(&'static str, &'static str)>)>,
    alone: fn(&Path) -> Option<String>,
}

fn shape(ctx: &Ctx, id: &str) -> Option<Shape> {
    let any = "struct Foo {\n    a: U64 = 0\n}\n";
    Some(match id {
        "C13" => Shape {
            sets: ctx.n(420, 8_000),
            batch: 6,
            tries: 60,
            compile: rust_compile,
            witnesses: vec![
                ("std-io-modules", vec![("main.t", "import 'std.t'\n"), ("std.t", any)]),
                ("digit-words", vec![("main.t", "choice Foo {\n    foo_1: U64 = 0\n    foo1: U64 = 1\n}\n")]),
                ("file-names-not-identifiers", vec![("main.t", "import 'foo.bar.t' as baz\n"), ("foo.bar.t", any)]),
                ("not-identifiers-in-rust", vec![("main.t", "struct Foo {\n    x²: U64 = 0\n}\n")]),
            ],
            alone: rust_alone,
        },
        "C14" => Shape {
            sets: ctx.n(960, 16_000),
            batch: 40,
            tries: 25,
            compile: ts_compile,
            witnesses: vec![
                (
                    "hidden-namespaces",
                    vec![
                        ("main.t", "import 'foo.t'\nimport 'bar/foo.t' as other\nstruct A {\n    a: foo.Foo = 0\n    b: other.Foo = 1\n}\n"),
                        ("foo.t", any),
                        ("bar/foo.t", "import '../foo.t' as top\nstruct Foo {\n    b: U64 = 0\n    c: top.Foo = 1\n}\n"),
                    ],
                ),
                (
                    "arrays-of-empty-choices",
                    vec![("main.t", "choice Empty {\n}\nstruct Foo {\n    a: [Empty] = 0\n}\n")],
                ),
                ("global-names", vec![("main.t", "struct Error {\n    a: U64 = 0\n}\n")]),
                ("digit-words", vec![("main.t", "struct Foo_1 {\n    a: U64 = 0\n}\nstruct Foo1 {\n    b: U64 = 0\n}\n")]),
                ("file-names-not-identifiers", vec![("main.t", "import '1x.t' as baz\n"), ("1x.t", any)]),
                ("not-identifiers-in-typescript", vec![("main.t", "struct Foo {\n    x²: U64 = 0\n}\n")]),
            ],
            alone: ts_alone,
        },
        _ => return None,
    })
}

fn opts(s: &mut Src) -> Opts {
    Opts {
        max_files: *s.pick(&[4, 6, 2]),
        max_decls: *s.pick(&[6, 10, 3]),
        max_fields: *s.pick(&[4, 7, 2]),
        big_indices: s.chance(1, 8),
        self_import: s.chance(1, 8),
        mixed_names: true,
        ..Opts::default()
    }
}

fn make(s: &mut Src) -> Set {
    let o = opts(s);
    let mut set = gen_set(s, &o);
    // Arrays of choices without fields; see known_findings.json.
    let before = set.clone();
    let empty = |f: usize, d: usize| before.decl(f, d).choice && before.decl(f, d).fields.is_empty();
    for x in set.files.iter_mut().flat_map(|f| &mut f.decls).flat_map(|d| &mut d.fields) {
        if matches!(x.ty, Ty::Arr(_)) {
            let mut t = &mut x.ty;
            while let Ty::Arr(i) = t {
                t = i;
            }
            if matches!(t, Ty::Ref(f, d) if empty(*f, *d)) {
                *t = Ty::U64;
            }
        }
    }
    set
}

// ---- Rust ----

/// What is to hold of the types besides what the glue demonstrates.
fn rust_extra(set: &Set) -> String {
    let mut s = String::from("fn plain<T: Clone + std::fmt::Debug + Send + Sync + 'static>() {}\n");
    let mut w = |t: String| writeln!(s, "{t}").unwrap();
    for (f, d) in set.types() {
        let decl = set.decl(f, d);
        let (o, i, a) = (
            rust_type(set, "p", &Ty::Ref(f, d), "Out"),
            rust_type(set, "p", &Ty::Ref(f, d), "In"),
            rust_type(set, "p", &Ty::Ref(f, d), "Atlas"),
        );
        w(format!("pub fn x_{f}_{d}() {{ plain::<{o}>(); plain::<{i}>(); }}"));
        w(format!("pub fn y_{f}_{d}(x: {o}, a: {a}) -> {i} {{ let _ = a; x.into() }}"));
        if !decl.choice {
            // Every field is public and has exactly the documented type.
            for dir in ["Out", "In"] {
                for (k, fl) in decl.fields.iter().enumerate() {
                    let t = rust_type(set, "p", &fl.ty, dir);
                    let optional = match dir {
                        "Out" => fl.rule == Rule::Opt,
                        _ => fl.rule != Rule::Req,
                    };
                    let t = if optional { format!("Option<{t}>") } else { t };
                    let me = if dir == "Out" { &o } else { &i };
                    w(format!("pub fn f{dir}_{f}_{d}_{k}(x: {me}) -> {t} {{ x.{} }}", fl.name.rust_snake()));
                }
            }
        }
    }
    s
}

fn rust_compile(dir: &Path, gens: &[Generated]) -> Vec<(usize, String)> {
    let all: Vec<&Generated> = gens.iter().collect();
    let extra = |g: &Generated| rust_extra(&g.set);
    let Err(e) = check_with(dir, "all", &all, &extra) else { return vec![] };
    if gens.len() == 1 {
        return vec![(0, first_error(&e))];
    }
    let mut out = vec![];
    for (i, g) in gens.iter().enumerate() {
        if let Err(e) = check_with(dir, &format!("one{i}"), &[g], &extra) {
            out.push((i, first_error(&e)));
        }
    }
    out
}

fn rust_alone(rs: &Path) -> Option<String> {
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "alone", "--emit", "metadata", "--cap-lints", "allow"])
        .arg("-o")
        .arg(rs.with_extension("rmeta"))
        .arg(rs.with_extension("rs"))
        .stdin(Stdio::null());
    limit(&mut c, 300, 0);
    let o = c.output().expect("cannot run rustc");
    if o.status.success() {
        None
    } else {
        Some(first_error(&String::from_utf8_lossy(&o.stderr)))
    }
}

// ---- TypeScript ----

const TSC: &str = "/opt/veriftools/node/node_modules/typescript/bin/tsc";

fn tsc(dir: &Path, files: &[String]) -> Result<(), String> {
    let mut c = Command::new("node");
    c.arg(TSC)
        .args(["--noEmit", "--strict", "--target", "es2021", "--module", "commonjs", "--moduleResolution", "node"])
        .args(["--lib", "es2016,es2020.bigint,dom", "--pretty", "false", "--ignoreDeprecations", "5.0"])
        .args(files)
        .current_dir(dir)
        .stdin(Stdio::null());
    limit(&mut c, 600, 0);
    let o = c.output().expect("cannot run tsc");
    if o.status.success() {
        Ok(())
    } else {
        Err(format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))
    }
}

fn ts_compile(dir: &Path, gens: &[Generated]) -> Vec<(usize, String)> {
    let mut files = vec![];
    for (i, g) in gens.iter().enumerate() {
        let f = format!("{}.shape.ts", g.key);
        put(dir, &f, ts::witness(&g.set, &g.key, i).as_bytes());
        files.push(f);
    }
    let Err(e) = tsc(dir, &files) else { return vec![] };
    let mut out: Vec<(usize, String)> = vec![];
    for (i, g) in gens.iter().enumerate() {
        let mine: Vec<&str> = e
            .lines()
            .filter(|l| l.starts_with(&format!("{}.shape.ts(", g.key)) || l.starts_with(&format!("{}.ts(", g.key)))
            .take(3)
            .collect();
        if !mine.is_empty() {
            let d = mine.iter().map(|l| clip(l, 700)).collect::<Vec<_>>().join("\n");
            out.push((i, d));
        }
    }
    if out.is_empty() {
        // Not about any of them in particular, such as a crash.
        out.push((0, clip(&e, 2000)));
    }
    out
}

fn ts_alone(rs: &Path) -> Option<String> {
    let p = rs.with_extension("ts");
    tsc(p.parent().unwrap(), &[p.file_name().unwrap().to_string_lossy().into_owned()]).err().map(|e| clip(&e, 600))
}

// ---- both ----

fn one(sh: &Shape, dir: &Path, set: &Set) -> Result<(), Failure> {
    std::fs::remove_dir_all(dir).ok();
    std::fs::create_dir_all(dir).expect("directory");
    match generate(dir, "s", set) {
        Err(r) => Err(Failure {
            sig: "the tool fails".into(),
            text: format!("the tool fails for a valid set: {}: {}", r.how(), clip(&r.err(), 800)),
            known: None,
        }),
        Ok(g) => match (sh.compile)(dir, &[g]).pop() {
            None => Ok(()),
            Some((_, e)) => Err(Failure {
                sig: "does not compile".into(),
                text: format!("the code generated for a valid set doesn't compile, or doesn't have the documented types:\n{e}"),
                known: None,
            }),
        },
    }
}

fn features(set: &Set) -> Vec<&'static str> {
    let mut v = vec![];
    let fields = || set.files.iter().flat_map(|f| &f.decls).flat_map(|d| &d.fields);
    fn depth(t: &Ty) -> usize {
        match t {
            Ty::Arr(t) => 1 + depth(t),
            _ => 0,
        }
    }
    if set.files.len() > 1 {
        v.push("several files");
    }
    if set.files.iter().any(|f| !f.dirs.is_empty()) {
        v.push("nested directories");
    }
    if fields().any(|f| depth(&f.ty) >= 2) {
        v.push("nested arrays");
    }
    if set.files.iter().flat_map(|f| &f.decls).any(|d| d.fields.is_empty()) {
        v.push("empty declarations");
    }
    if fields().any(|f| f.rule == Rule::Asym) {
        v.push("asymmetric fields");
    }
    if fields().any(|f| f.index > 30) {
        v.push("large indices");
    }
    if fields().any(|f| f.name.rust_snake() != f.name.snake() || f.name.ts_camel() != f.name.camel()) {
        v.push("fields named like keywords");
    }
    v
}

pub fn check(ctx: &mut Ctx) -> bool {
    let id = ctx.id.clone();
    let Some(sh) = shape(ctx, &id) else { return false };
    ctx.rule = "A case is a generated valid set of schema files, whose generated code is compiled together with code that \
                constructs, matches, converts and annotates every type, field and variant as documented. Non-trivial: at \
                least one type with a field; distinct by the set."
        .into();
    ctx.assume(if id == "C13" {
        "rustc 1.85, edition 2021, type checking without code generation"
    } else {
        "tsc 5.9.3 with --strict; the libraries are es2016, es2020.bigint and dom, since those of this version which declare SharedArrayBuffer distinguish it from ArrayBuffer, unlike those of version 4.5 which the project uses"
    });
    for (name, files) in &sh.witnesses {
        let sc = Scratch::new();
        ctx.stats.evaluations += 1;
        if let Err(mut f) = witness(&sh, &sc, files) {
            f.known = Some((*name).to_owned());
            ctx.failed(f, obj(vec![("witness", (*name).into())]));
        }
    }
    let base = ctx.seed_for("set", 0);
    let scratch = Scratch::new();
    let results = parallel(sh.sets.div_ceil(sh.batch), |b| {
        if crate::draw::trouble().is_some_and(|t| t.as_secs() > 60) {
            return (crate::report::Stats::default(), vec![]);
        }
        let dir = scratch.path().join(format!("b{b}"));
        std::fs::create_dir_all(&dir).expect("directory");
        let mut stats = crate::report::Stats::default();
        let mut bad: Vec<(u64, String)> = vec![];
        let mut gens = vec![];
        let mut seeds = vec![];
        for i in b * sh.batch..((b + 1) * sh.batch).min(sh.sets) {
            let seed = mix(&[base, i as u64]);
            let set = make(&mut Src::random(seed));
            match generate(&dir, &format!("g{i}"), &set) {
                Ok(g) => {
                    gens.push(g);
                    seeds.push(seed);
                }
                Err(_) => bad.push((seed, String::new())),
            }
        }
        let failed = (sh.compile)(&dir, &gens);
        if !failed.is_empty() || !bad.is_empty() {
            crate::draw::troubled();
        }
        for (i, g) in gens.iter().enumerate() {
            if failed.iter().any(|f| f.0 == i) {
                continue;
            }
            stats.add(Info {
                nontrivial: g.set.files.iter().flat_map(|f| &f.decls).any(|d| !d.fields.is_empty()),
                hash: crate::draw::hash_str(&g.set.dump()),
                classes: features(&g.set),
                runs: 1,
                sample: Some(clip(&g.set.dump(), 700)),
            });
        }
        bad.extend(failed.into_iter().map(|(i, e)| (seeds[i], e)));
        std::fs::remove_dir_all(&dir).ok();
        (stats, bad)
    });
    let mut bad = vec![];
    for (s, b) in results {
        ctx.stats.merge(s);
        bad.extend(b);
    }
    ctx.stats.count("sets whose code is wrong", bad.len() as u64);
    bad.truncate(3);
    let shrunk = parallel(bad.len(), |k| {
        let dir = scratch.path().join(format!("s{k}"));
        let mut src = Src::random(bad[k].0);
        let set = make(&mut src);
        let f = match one(&sh, &dir, &set) {
            Err(f) => f,
            // It only fails together with others.
            Ok(()) => Failure { sig: "does not compile".into(), text: bad[k].1.clone(), known: None },
        };
        let choices = shrink(src.rec.clone(), sh.tries, |cs| {
            matches!(one(&sh, &dir, &make(&mut Src::replay(cs))), Err(x) if x.sig == f.sig)
        });
        let set = make(&mut Src::replay(&choices));
        let mut last = one(&sh, &dir, &set).err().unwrap_or(f);
        last.text = format!("{}\n{}", last.text, clip(&set.dump(), 3000));
        let j = obj(vec![
            ("choices", J::Arr(choices.iter().map(|c| c.to_string().into()).collect())),
            ("schemas", set.dump().into()),
        ]);
        (last, j)
    });
    for (f, j) in shrunk {
        ctx.stats.evaluations += 1;
        ctx.failed(f, j);
    }
    true
}

fn witness(sh: &Shape, sc: &Scratch, files: &[(&str, &str)]) -> Result<(), Failure> {
    for (p, t) in files {
        sc.put(&format!("in/{p}"), t.as_bytes());
    }
    let main = format!("in/{}", files[0].0);
    let r = run_tool(sc.path(), &["generate", &main, "--rust", "code.rs", "--typescript", "code.ts"]);
    if !r.ok() {
        // Then there is no code that could be wrong.
        return Ok(());
    }
    match (sh.alone)(&sc.path().join("code.rs")) {
        None => Ok(()),
        Some(e) => Err(Failure {
            sig: "does not compile".into(),
            text: format!("the code generated for these files doesn't compile: {files:?}\n{e}"),
            known: None,
        }),
    }
}

pub fn replay(ctx: &Ctx, id: &str, case: &J) -> Option<Result<Info, Failure>> {
    let sh = shape(ctx, id)?;
    let sc = Scratch::new();
    if let Some(w) = case.get("witness") {
        let files = &sh.witnesses.iter().find(|x| x.0 == w.s())?.1;
        return Some(witness(&sh, &sc, files).map(|()| Info::default()));
    }
    let choices: Vec<u64> = case.get("choices")?.arr().iter().filter_map(|c| c.s().parse().ok()).collect();
    let set = make(&mut Src::replay(&choices));
    Some(one(&sh, &sc.path().join("x"), &set).map(|()| Info::default()))
}
