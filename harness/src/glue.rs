//! The Rust that connects generated code with the harness's values. It names every type, field and variant and
//! matches exhaustively, so it compiles only if the generated types have the documented shapes.

use crate::model::{Name, Rule, Set, Ty};
use std::fmt::Write;

fn module(set: &Set, f: usize) -> String {
    set.files[f].components().iter().map(Name::rust_snake).collect::<Vec<_>>().join("::")
}

pub fn rust_type(set: &Set, root: &str, t: &Ty, dir: &str) -> String {
    match t {
        Ty::Unit => "()".into(),
        Ty::Bool => "bool".into(),
        Ty::F64 => "f64".into(),
        Ty::U64 => "u64".into(),
        Ty::S64 => "i64".into(),
        Ty::Bytes => "Vec<u8>".into(),
        Ty::Str => "String".into(),
        Ty::Arr(t) => format!("Vec<{}>", rust_type(set, root, t, dir)),
        Ty::Ref(f, d) => format!("{root}::{}::{}{dir}", module(set, *f), set.decl(*f, *d).name.pascal()),
    }
}

/// `&Val` to the written type.
fn to_out(t: &Ty, e: &str) -> String {
    match t {
        Ty::Unit => format!("{e}.unit()"),
        Ty::Bool => format!("{e}.bool()"),
        Ty::F64 => format!("{e}.f64()"),
        Ty::U64 => format!("{e}.u64()"),
        Ty::S64 => format!("{e}.s64()"),
        Ty::Bytes => format!("{e}.bytes()"),
        Ty::Str => format!("{e}.str()"),
        Ty::Arr(t) => format!("{e}.arr().iter().map(|v| {}).collect::<Vec<_>>()", to_out(t, "v")),
        Ty::Ref(f, d) => format!("o_{f}_{d}({e})"),
    }
}

/// The read type to `Val`.
fn from_in(t: &Ty, e: &str) -> String {
    match t {
        Ty::Unit => format!("{{ let _: () = {e}; Val::Unit }}"),
        Ty::Bool => format!("Val::Bool({e})"),
        Ty::F64 => format!("Val::F64(f64::to_bits({e}))"),
        Ty::U64 => format!("Val::U64({e})"),
        Ty::S64 => format!("Val::S64({e})"),
        Ty::Bytes => format!("Val::Bytes({e})"),
        Ty::Str => format!("Val::Str({e})"),
        Ty::Arr(t) if **t == Ty::Unit => format!("unit_array({e})"),
        Ty::Arr(t) => format!("Val::Arr({e}.into_iter().map(|v| {}).collect::<Vec<_>>())", from_in(t, "v")),
        Ty::Ref(f, d) => format!("i_{f}_{d}({e})"),
    }
}

/// `root` is the path of the module holding the generated code.
pub fn glue(set: &Set, root: &str, key: &str) -> String {
    let mut s = String::new();
    for (f, d) in set.types() {
        let decl = set.decl(f, d);
        let out = rust_type(set, root, &Ty::Ref(f, d), "Out");
        let inn = rust_type(set, root, &Ty::Ref(f, d), "In");
        writeln!(s, "pub fn o_{f}_{d}(v: &Val) -> {out} {{").unwrap();
        if decl.choice {
            writeln!(s, "match v.ch() {{").unwrap();
            for (i, fl) in decl.fields.iter().enumerate() {
                let mut args = vec![];
                if fl.ty != Ty::Unit {
                    args.push(to_out(&fl.ty, "v"));
                }
                if fl.rule != Rule::Req {
                    args.push(format!("Box::new(o_{f}_{d}(fb.expect(\"glue: fallback\")))"));
                }
                let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
                writeln!(s, "({i}, v, fb) => {{ let _ = (v, fb); {out}::{}{args} }}", fl.name.rust_pascal()).unwrap();
            }
            writeln!(s, "_ => panic!(\"glue\"),\n}}\n}}").unwrap();
        } else {
            writeln!(s, "let fs = v.st(); let _ = fs;\n{out} {{").unwrap();
            for (i, fl) in decl.fields.iter().enumerate() {
                let x = match fl.rule {
                    Rule::Opt => format!("fs[{i}].as_ref().map(|v| {})", to_out(&fl.ty, "v")),
                    _ => to_out(&fl.ty, &format!("fs[{i}].as_ref().expect(\"glue: field\")")),
                };
                writeln!(s, "{}: {x},", fl.name.rust_snake()).unwrap();
            }
            writeln!(s, "}}\n}}").unwrap();
        }
        writeln!(s, "pub fn i_{f}_{d}(x: {inn}) -> Val {{").unwrap();
        if decl.choice {
            writeln!(s, "match x {{").unwrap();
            for (i, fl) in decl.fields.iter().enumerate() {
                let mut pats = vec![];
                let mut payload = "Val::Unit".to_owned();
                let mut fb = "None".to_owned();
                if fl.ty != Ty::Unit {
                    pats.push("v");
                    payload = from_in(&fl.ty, "v");
                }
                if fl.rule == Rule::Opt {
                    pats.push("fb");
                    fb = format!("{{ let fb: Box<{inn}> = fb; Some(Box::new(i_{f}_{d}(*fb))) }}");
                }
                let pats = if pats.is_empty() { String::new() } else { format!("({})", pats.join(", ")) };
                writeln!(s, "{inn}::{}{pats} => Val::Choice({i}, Box::new({payload}), {fb}),", fl.name.rust_pascal())
                    .unwrap();
            }
            writeln!(s, "}}\n}}").unwrap();
        } else {
            let binds: Vec<String> =
                decl.fields.iter().enumerate().map(|(i, fl)| format!("{}: f{i}", fl.name.rust_snake())).collect();
            writeln!(s, "let {inn} {{ {} }} = x;\nVal::Struct(vec![", binds.join(", ")).unwrap();
            for (i, fl) in decl.fields.iter().enumerate() {
                let x = match fl.rule {
                    Rule::Req => format!("Some({})", from_in(&fl.ty, &format!("f{i}"))),
                    _ => format!("f{i}.map(|v| {})", from_in(&fl.ty, "v")),
                };
                writeln!(s, "{x},").unwrap();
            }
            writeln!(s, "])\n}}").unwrap();
        }
        write!(
            s,
            "pub struct T_{f}_{d};
impl TypeOps for T_{f}_{d} {{
    fn size(&self, v: &Val) -> usize {{ {root}::Serialize::size(&o_{f}_{d}(v)) }}
    fn write(&self, v: &Val, w: &mut dyn Write) -> io::Result<()> {{ {root}::Serialize::serialize(&o_{f}_{d}(v), w) }}
    fn read(&self, r: &mut dyn BufRead) -> io::Result<Box<dyn FnOnce() -> Val>> {{
        let x = <{inn} as {root}::Deserialize>::deserialize(r)?;
        Ok(Box::new(move || i_{f}_{d}(x)))
    }}
    fn convert(&self, v: &Val) -> Val {{ i_{f}_{d}(<{inn} as From<{out}>>::from(o_{f}_{d}(v))) }}
}}
"
        )
        .unwrap();
    }
    writeln!(s, "pub fn register(m: &mut Vec<(String, Box<dyn TypeOps>)>) {{ let _ = &m;").unwrap();
    for (f, d) in set.types() {
        writeln!(s, "m.push((\"{key}/{f}/{d}\".to_owned(), Box::new(T_{f}_{d})));").unwrap();
    }
    writeln!(s, "}}").unwrap();
    s
}
