//! The harness's own model of a set of schema files, independent of the code under test.

use std::fmt::Write;

/// An identifier as a list of lower-case words; each word starts with a letter.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Name(pub Vec<String>);

fn cap(w: &str) -> String {
    let mut cs = w.chars();
    match cs.next() {
        None => String::new(),
        Some(c) => c.to_uppercase().collect::<String>() + cs.as_str(),
    }
}

impl Name {
    pub fn of(words: &[&str]) -> Name {
        Name(words.iter().map(|w| (*w).to_owned()).collect())
    }
    pub fn snake(&self) -> String {
        self.0.join("_")
    }
    pub fn pascal(&self) -> String {
        self.0.iter().map(|w| cap(w)).collect()
    }
    pub fn camel(&self) -> String {
        self.0.iter().enumerate().map(|(i, w)| if i == 0 { w.clone() } else { cap(w) }).collect()
    }
    /// Names with the same key may not share a scope (a coarser notion than the tool's own).
    pub fn key(&self) -> String {
        self.0.concat().to_lowercase()
    }
    pub fn styled(&self, style: usize) -> String {
        match style % 3 {
            0 => self.snake(),
            1 => self.pascal(),
            _ => self.camel(),
        }
    }
    /// Raw identifiers denote the same name whether or not the word is a keyword.
    pub fn rust_snake(&self) -> String {
        let s = self.snake();
        if ["self", "super", "crate"].contains(&s.as_str()) {
            format!("_{s}")
        } else {
            format!("r#{s}")
        }
    }
    pub fn rust_pascal(&self) -> String {
        let s = self.pascal();
        if s == "Self" {
            "_Self".into()
        } else {
            s
        }
    }
    pub fn ts_camel(&self) -> String {
        let s = self.camel();
        if TS_KEYWORDS.contains(&s.as_str()) || TS_INHERITED.contains(&s.as_str()) {
            format!("_{s}")
        } else {
            s
        }
    }
}

pub const TYPICAL_KEYWORDS: &[&str] = &[
    "as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "S64", "String", "struct",
    "U64", "Unit",
];

/// TypeScript's keywords, contextual ones included (SyntaxKind.AbstractKeyword and so on).
pub const TS_KEYWORDS: &[&str] = &[
    "abstract", "any", "as", "assert", "asserts", "async", "await", "bigint", "boolean", "break", "case", "catch",
    "class", "const", "constructor", "continue", "debugger", "declare", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "from", "function", "get", "global", "if", "implements",
    "import", "in", "infer", "instanceof", "interface", "intrinsic", "is", "keyof", "let", "module", "namespace",
    "never", "new", "null", "number", "object", "of", "override", "package", "private", "protected", "public",
    "readonly", "require", "return", "set", "static", "string", "super", "switch", "symbol", "this", "throw",
    "true", "try", "type", "typeof", "undefined", "unique", "unknown", "var", "void", "while", "with", "yield",
];

/// The properties which every object has.
pub const TS_INHERITED: &[&str] =
    &["hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable", "toLocaleString", "toString", "valueOf"];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Unit,
    Bool,
    F64,
    U64,
    S64,
    Bytes,
    Str,
    Arr(Box<Ty>),
    /// (file, declaration)
    Ref(usize, usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rule {
    Req,
    Asym,
    Opt,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    pub name: Name,
    pub rule: Rule,
    pub ty: Ty,
    pub index: u64,
    /// Paragraphs.
    pub comment: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Decl {
    pub name: Name,
    pub choice: bool,
    pub fields: Vec<Field>,
    pub deleted: Vec<u64>,
    pub comment: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Import {
    pub target: usize,
    pub alias: Option<Name>,
    /// An unusual but equivalent spelling of the path, if any.
    pub path: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct File {
    /// Directories relative to the main schema's directory.
    pub dirs: Vec<Name>,
    pub stem: Name,
    pub imports: Vec<Import>,
    pub decls: Vec<Decl>,
    pub comment: Vec<String>,
}

/// File 0 is the main schema.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Set {
    pub files: Vec<File>,
}

impl File {
    pub fn path(&self) -> String {
        let mut s = String::new();
        for d in &self.dirs {
            s.push_str(&d.snake());
            s.push('/');
        }
        s.push_str(&self.stem.snake());
        s.push_str(".t");
        s
    }
    pub fn components(&self) -> Vec<Name> {
        let mut v = self.dirs.clone();
        v.push(self.stem.clone());
        v
    }
}

pub fn relative(from: &File, to: &File) -> String {
    let mut common = 0;
    while common < from.dirs.len() && common < to.dirs.len() && from.dirs[common] == to.dirs[common] {
        common += 1;
    }
    let mut s = "../".repeat(from.dirs.len() - common);
    for d in &to.dirs[common..] {
        s.push_str(&d.snake());
        s.push('/');
    }
    s.push_str(&to.stem.snake());
    s.push_str(".t");
    s
}

impl Set {
    pub fn decl(&self, f: usize, d: usize) -> &Decl {
        &self.files[f].decls[d]
    }
    pub fn types(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, f) in self.files.iter().enumerate() {
            for j in 0..f.decls.len() {
                v.push((i, j));
            }
        }
        v
    }
    pub fn import_name(&self, f: usize, target: usize) -> Option<Name> {
        self.files[f]
            .imports
            .iter()
            .find(|i| i.target == target)
            .map(|i| i.alias.clone().unwrap_or_else(|| self.files[target].stem.clone()))
    }
    /// Whether there is a finite value of the type that a writer can construct.
    pub fn inhabited(&self, f: usize, d: usize) -> bool {
        let decl = self.decl(f, d);
        let ok = |fl: &Field| match &fl.ty {
            Ty::Ref(a, b) => self.inhabited(*a, *b),
            _ => true,
        };
        if decl.choice {
            decl.fields.iter().any(|fl| fl.rule == Rule::Req && ok(fl))
        } else {
            decl.fields.iter().all(|fl| fl.rule == Rule::Opt || ok(fl))
        }
    }
    pub fn ty_inhabited(&self, t: &Ty) -> bool {
        match t {
            Ty::Ref(a, b) => self.inhabited(*a, *b),
            _ => true,
        }
    }
    pub fn ty_text(&self, f: usize, t: &Ty) -> String {
        match t {
            Ty::Unit => "Unit".into(),
            Ty::Bool => "Bool".into(),
            Ty::F64 => "F64".into(),
            Ty::U64 => "U64".into(),
            Ty::S64 => "S64".into(),
            Ty::Bytes => "Bytes".into(),
            Ty::Str => "String".into(),
            Ty::Arr(t) => format!("[{}]", self.ty_text(f, t)),
            Ty::Ref(a, b) => {
                let n = sigil(&self.decl(*a, *b).name.pascal());
                if *a == f {
                    n
                } else {
                    format!("{}.{n}", sigil(&self.import_name(f, *a).unwrap_or_else(|| self.files[*a].stem.clone()).snake()))
                }
            }
        }
    }
    /// The text of a file in the conventional layout.
    pub fn print(&self, f: usize) -> String {
        let file = &self.files[f];
        let mut s = String::new();
        comment(&mut s, "", &file.comment);
        if !file.comment.is_empty() && (!file.imports.is_empty() || !file.decls.is_empty()) {
            s.push('\n');
        }
        for i in &file.imports {
            let p = i.path.clone().unwrap_or_else(|| relative(file, &self.files[i.target]));
            match &i.alias {
                None => writeln!(s, "import '{p}'").unwrap(),
                Some(a) => writeln!(s, "import '{p}' as {}", sigil(&a.snake())).unwrap(),
            }
        }
        for (k, d) in file.decls.iter().enumerate() {
            if k > 0 || !file.imports.is_empty() {
                s.push('\n');
            }
            comment(&mut s, "", &d.comment);
            writeln!(s, "{} {} {{", if d.choice { "choice" } else { "struct" }, sigil(&d.name.pascal())).unwrap();
            for fl in &d.fields {
                comment(&mut s, "    ", &fl.comment);
                s.push_str("    ");
                s.push_str(match fl.rule {
                    Rule::Req => "",
                    Rule::Asym => "asymmetric ",
                    Rule::Opt => "optional ",
                });
                s.push_str(&sigil(&fl.name.snake()));
                if fl.ty != Ty::Unit {
                    write!(s, ": {}", self.ty_text(f, &fl.ty)).unwrap();
                }
                writeln!(s, " = {}", fl.index).unwrap();
            }
            if !d.deleted.is_empty() {
                s.push_str("    deleted");
                for x in &d.deleted {
                    write!(s, " {x}").unwrap();
                }
                s.push('\n');
            }
            s.push_str("}\n");
        }
        s
    }
    pub fn texts(&self) -> Vec<(String, String)> {
        (0..self.files.len()).map(|i| (self.files[i].path(), self.print(i))).collect()
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for (p, t) in self.texts() {
            write!(s, "--- {p}\n{t}").unwrap();
        }
        s
    }
}

pub fn sigil(s: &str) -> String {
    if TYPICAL_KEYWORDS.contains(&s) {
        format!("${s}")
    } else {
        s.to_owned()
    }
}

fn comment(s: &mut String, ind: &str, paragraphs: &[String]) {
    for (i, p) in paragraphs.iter().enumerate() {
        if i > 0 {
            writeln!(s, "{ind}#").unwrap();
        }
        writeln!(s, "{ind}# {p}").unwrap();
    }
}

// ---- JSON, for replay files ----

use crate::json::{obj, J};

impl Name {
    fn to_json(&self) -> J {
        J::Arr(self.0.iter().map(|w| J::from(w.as_str())).collect())
    }
    fn from_json(j: &J) -> Name {
        Name(j.arr().iter().map(|w| w.s().to_owned()).collect())
    }
}

fn strings(v: &[String]) -> J {
    J::Arr(v.iter().map(|w| J::from(w.as_str())).collect())
}
fn un_strings(j: Option<&J>) -> Vec<String> {
    j.map_or(vec![], |j| j.arr().iter().map(|w| w.s().to_owned()).collect())
}

impl Ty {
    pub fn to_json(&self) -> J {
        match self {
            Ty::Unit => "unit".into(),
            Ty::Bool => "bool".into(),
            Ty::F64 => "f64".into(),
            Ty::U64 => "u64".into(),
            Ty::S64 => "s64".into(),
            Ty::Bytes => "bytes".into(),
            Ty::Str => "str".into(),
            Ty::Arr(t) => obj(vec![("a", t.to_json())]),
            Ty::Ref(f, d) => obj(vec![("r", format!("{f}/{d}").into())]),
        }
    }
    pub fn from_json(j: &J) -> Ty {
        match j.s() {
            "unit" => Ty::Unit,
            "bool" => Ty::Bool,
            "f64" => Ty::F64,
            "u64" => Ty::U64,
            "s64" => Ty::S64,
            "bytes" => Ty::Bytes,
            "str" => Ty::Str,
            _ => {
                if let Some(a) = j.get("a") {
                    Ty::Arr(Box::new(Ty::from_json(a)))
                } else {
                    let r = j.get("r").expect("type").s();
                    let (a, b) = r.split_once('/').expect("type");
                    Ty::Ref(a.parse().unwrap(), b.parse().unwrap())
                }
            }
        }
    }
}

impl Set {
    pub fn to_json(&self) -> J {
        J::Arr(
            self.files
                .iter()
                .map(|f| {
                    obj(vec![
                        ("dirs", J::Arr(f.dirs.iter().map(Name::to_json).collect())),
                        ("stem", f.stem.to_json()),
                        ("comment", strings(&f.comment)),
                        (
                            "imports",
                            J::Arr(
                                f.imports
                                    .iter()
                                    .map(|i| {
                                        obj(vec![
                                            ("target", i.target.into()),
                                            ("alias", i.alias.as_ref().map_or(J::Null, Name::to_json)),
                                            ("path", i.path.as_ref().map_or(J::Null, |p| p.as_str().into())),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                        (
                            "decls",
                            J::Arr(
                                f.decls
                                    .iter()
                                    .map(|d| {
                                        obj(vec![
                                            ("name", d.name.to_json()),
                                            ("choice", d.choice.into()),
                                            ("comment", strings(&d.comment)),
                                            ("deleted", J::Arr(d.deleted.iter().map(|n| n.to_string().into()).collect())),
                                            (
                                                "fields",
                                                J::Arr(
                                                    d.fields
                                                        .iter()
                                                        .map(|x| {
                                                            obj(vec![
                                                                ("name", x.name.to_json()),
                                                                ("rule", (x.rule as usize).into()),
                                                                ("ty", x.ty.to_json()),
                                                                ("index", x.index.to_string().into()),
                                                                ("comment", strings(&x.comment)),
                                                            ])
                                                        })
                                                        .collect(),
                                                ),
                                            ),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ])
                })
                .collect(),
        )
    }
    pub fn from_json(j: &J) -> Set {
        let names = |j: Option<&J>| j.map_or(vec![], |j| j.arr().iter().map(Name::from_json).collect::<Vec<_>>());
        let num = |j: &J| j.s().parse::<u64>().unwrap_or(0);
        let list = |j: &J, k: &str| j.get(k).map_or(vec![], |x| x.arr().to_vec());
        Set {
            files: j
                .arr()
                .iter()
                .map(|f| File {
                    dirs: names(f.get("dirs")),
                    stem: Name::from_json(f.get("stem").unwrap_or(&J::Null)),
                    comment: un_strings(f.get("comment")),
                    imports: list(f, "imports")
                        .iter()
                        .map(|i| Import {
                            target: i.get("target").map_or(0, |t| t.n() as usize),
                            alias: i.get("alias").filter(|a| **a != J::Null).map(Name::from_json),
                            path: i.get("path").filter(|a| **a != J::Null).map(|p| p.s().to_owned()),
                        })
                        .collect(),
                    decls: list(f, "decls")
                        .iter()
                        .map(|d| Decl {
                            name: Name::from_json(d.get("name").unwrap_or(&J::Null)),
                            choice: d.get("choice") == Some(&J::Bool(true)),
                            comment: un_strings(d.get("comment")),
                            deleted: list(d, "deleted").iter().map(num).collect(),
                            fields: list(d, "fields")
                                .iter()
                                .map(|x| Field {
                                    name: Name::from_json(x.get("name").unwrap_or(&J::Null)),
                                    rule: match x.get("rule").map_or(0, |r| r.n() as usize) {
                                        0 => Rule::Req,
                                        1 => Rule::Asym,
                                        _ => Rule::Opt,
                                    },
                                    ty: Ty::from_json(x.get("ty").unwrap_or(&J::Null)),
                                    index: x.get("index").map_or(0, num),
                                    comment: un_strings(x.get("comment")),
                                })
                                .collect(),
                        })
                        .collect(),
                })
                .collect(),
        }
    }
}
