//! Schema files as text: a syntax tree with spellings, a printer with arbitrary layouts, and a reference lexer, parser,
//! loader and validator, all independent of the code under test.

use crate::draw::Src;
use crate::model::{relative, Rule, Set, Ty, TYPICAL_KEYWORDS};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};

// ---- names ----

/// The words of an identifier: a word starts at an upper-case letter, and underscores and hyphens separate words.
pub fn words(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '_' || c == '-' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            continue;
        }
        if c.is_uppercase() && !cur.is_empty() {
            out.push(std::mem::take(&mut cur));
        }
        cur.push(c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out.iter().map(|w| w.to_lowercase()).collect()
}

/// What decides whether two identifiers are the same.
pub fn ident(s: &str) -> String {
    words(s).join("_")
}

// ---- the syntax tree ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RTy {
    Prim(&'static str),
    Arr(Box<RTy>),
    /// Spellings, without sigils.
    Named(Option<String>, String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RField {
    pub comment: Vec<String>,
    pub rule: Rule,
    pub name: String,
    pub ty: Option<RTy>,
    pub index: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RDecl {
    pub comment: Vec<String>,
    pub choice: bool,
    pub name: String,
    pub fields: Vec<RField>,
    pub deleted: Option<Vec<u64>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RImport {
    pub path: String,
    pub alias: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RFile {
    pub comment: Vec<String>,
    pub imports: Vec<RImport>,
    pub decls: Vec<RDecl>,
}

impl RImport {
    pub fn name(&self) -> String {
        match &self.alias {
            Some(a) => ident(a),
            None => ident(&stem(&self.path).unwrap_or_default()),
        }
    }
}

pub fn stem(p: &str) -> Option<String> {
    Path::new(p).file_stem().map(|s| s.to_string_lossy().into_owned())
}

/// A set of files, by path relative to some directory. The main one comes first.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RSet {
    pub files: Vec<(String, RFile)>,
}

pub fn style(words: &[String], how: usize) -> String {
    // Words that can't be told from the end of the one before are separated by underscores.
    let cap = |w: &String| {
        let mut cs = w.chars();
        let c = cs.next().map_or(String::new(), |c| c.to_uppercase().collect::<String>() + cs.as_str());
        let undone = c.starts_with(char::is_uppercase) && c.chars().all(char::is_alphanumeric) && ident(&c) == ident(w);
        if undone {
            (true, c)
        } else {
            (false, w.clone())
        }
    };
    let joined = |first: usize| {
        let mut out = String::new();
        for (i, w) in words.iter().enumerate() {
            let (capital, c) = if i < first { (false, w.clone()) } else { cap(w) };
            if i > 0 && !capital {
                out.push('_');
            }
            out.push_str(&c);
        }
        out
    };
    match how {
        0 => words.join("_"),
        1 => joined(0),
        2 => joined(1),
        3 => words.iter().map(|w| cap(w).1).collect::<Vec<_>>().join("_"),
        4 => words.join("__") + "_",
        _ => words.iter().enumerate().map(|(i, w)| if i % 2 == 0 { w.clone() } else { cap(w).1 }).collect::<Vec<_>>().join("_"),
    }
}

/// Spell a name, in the way that is usual (for `plain`) or in any way.
fn spell(words: &[String], usual: usize, s: &mut Option<&mut Src>) -> String {
    match s {
        None => style(words, usual),
        Some(s) => {
            let k = s.weighted(&[6, 2, 2, 1, 1, 1]);
            style(words, if k == 0 { usual } else { k })
        }
    }
}

fn rty(set: &Set, f: usize, t: &Ty, s: &mut Option<&mut Src>) -> RTy {
    match t {
        Ty::Unit => RTy::Prim("Unit"),
        Ty::Bool => RTy::Prim("Bool"),
        Ty::F64 => RTy::Prim("F64"),
        Ty::U64 => RTy::Prim("U64"),
        Ty::S64 => RTy::Prim("S64"),
        Ty::Bytes => RTy::Prim("Bytes"),
        Ty::Str => RTy::Prim("String"),
        Ty::Arr(t) => RTy::Arr(Box::new(rty(set, f, t, s))),
        Ty::Ref(a, b) => {
            let n = spell(&set.decl(*a, *b).name.0, 1, s);
            if *a == f {
                RTy::Named(None, n)
            } else {
                let i = set.import_name(f, *a).unwrap_or_else(|| set.files[*a].stem.clone());
                RTy::Named(Some(spell(&i.0, 0, s)), n)
            }
        }
    }
}

/// The syntax trees of a set, in the usual spelling or with various ones.
pub fn raw(set: &Set, mut s: Option<&mut Src>) -> RSet {
    let mut out = RSet::default();
    for (f, file) in set.files.iter().enumerate() {
        let mut r = RFile { comment: file.comment.clone(), ..RFile::default() };
        for i in &file.imports {
            r.imports.push(RImport {
                path: i.path.clone().unwrap_or_else(|| relative(file, &set.files[i.target])),
                alias: i.alias.as_ref().map(|a| spell(&a.0, 0, &mut s)),
            });
        }
        for d in &file.decls {
            let mut fields = vec![];
            for x in &d.fields {
                let plain_unit = x.ty == Ty::Unit
                    && match &mut s {
                        None => true,
                        Some(s) => !s.chance(1, 3),
                    };
                let ty = if plain_unit { None } else { Some(rty(set, f, &x.ty, &mut s)) };
                fields.push(RField {
                    comment: x.comment.clone(),
                    rule: x.rule,
                    name: spell(&x.name.0, 0, &mut s),
                    ty,
                    index: x.index,
                });
            }
            let none = match &mut s {
                None => true,
                Some(s) => !s.chance(1, 5),
            };
            r.decls.push(RDecl {
                comment: d.comment.clone(),
                choice: d.choice,
                name: spell(&d.name.0, 1, &mut s),
                fields,
                deleted: if d.deleted.is_empty() && none { None } else { Some(d.deleted.clone()) },
            });
        }
        out.files.push((file.path(), r));
    }
    out
}

// ---- printing ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Lines {
    pub first: usize,
    pub last: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Piece {
    Word(String),
    /// Text that needs no separation.
    Sym(String),
    Comment(Vec<String>),
    /// The next two are separated such that the first is a comment on the file.
    Apart,
}

fn name_text(s: &str, sigil: bool) -> String {
    if sigil || TYPICAL_KEYWORDS.contains(&s) || !s.starts_with(char::is_alphabetic) {
        format!("${s}")
    } else {
        s.to_owned()
    }
}

fn ty_pieces(t: &RTy, out: &mut Vec<Piece>, sig: &mut dyn FnMut() -> bool) {
    match t {
        RTy::Prim(p) => out.push(Piece::Word((*p).to_owned())),
        RTy::Arr(t) => {
            out.push(Piece::Sym("[".into()));
            ty_pieces(t, out, sig);
            out.push(Piece::Sym("]".into()));
        }
        RTy::Named(i, n) => {
            if let Some(i) = i {
                out.push(Piece::Word(name_text(i, sig())));
                out.push(Piece::Sym(".".into()));
            }
            out.push(Piece::Word(name_text(n, sig())));
        }
    }
}

fn pieces(f: &RFile, mut s: Option<&mut Src>) -> Vec<Piece> {
    let mut sig = || s.as_mut().is_some_and(|s| s.chance(1, 8));
    let w = |x: &str| Piece::Word(x.to_owned());
    let mut out = vec![];
    if !f.comment.is_empty() {
        out.push(Piece::Comment(f.comment.clone()));
        out.push(Piece::Apart);
    }
    for i in &f.imports {
        out.push(w("import"));
        out.push(Piece::Sym(format!("'{}'", i.path)));
        if let Some(a) = &i.alias {
            out.push(w("as"));
            out.push(Piece::Word(name_text(a, sig())));
        }
    }
    for d in &f.decls {
        if !d.comment.is_empty() {
            out.push(Piece::Comment(d.comment.clone()));
        }
        out.push(w(if d.choice { "choice" } else { "struct" }));
        out.push(Piece::Word(name_text(&d.name, sig())));
        out.push(Piece::Sym("{".into()));
        for x in &d.fields {
            if !x.comment.is_empty() {
                out.push(Piece::Comment(x.comment.clone()));
            }
            match x.rule {
                Rule::Req => {}
                Rule::Asym => out.push(w("asymmetric")),
                Rule::Opt => out.push(w("optional")),
            }
            out.push(Piece::Word(name_text(&x.name, sig())));
            if let Some(t) = &x.ty {
                out.push(Piece::Sym(":".into()));
                ty_pieces(t, &mut out, &mut sig);
            }
            out.push(Piece::Sym("=".into()));
            out.push(Piece::Word(x.index.to_string()));
        }
        if let Some(ds) = &d.deleted {
            out.push(w("deleted"));
            for x in ds {
                out.push(Piece::Word(x.to_string()));
            }
        }
        out.push(Piece::Sym("}".into()));
    }
    out
}

/// Render a file in some layout; the text only differs in what has no meaning.
pub fn layout(f: &RFile, s: &mut Src) -> String {
    let ps = pieces(f, Some(s));
    let crlf = s.chance(1, 6);
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut out = String::new();
    // A leading comment directly above the first declaration, or any other, must stay what it is.
    let mut k = 0;
    if s.chance(1, 6) {
        out.push_str(nl);
    }
    let mut tight = false;
    let mut after_comment = false;
    while k < ps.len() {
        let p = &ps[k];
        match p {
            Piece::Apart => {
                out.push_str(nl);
                after_comment = false;
            }
            Piece::Comment(paras) => {
                // Only white space without a line break, or an empty line, may come before it.
                if !out.is_empty() && !after_comment && !out.ends_with('\n') {
                    out.push_str(if s.chance(1, 4) { " " } else { nl });
                } else if after_comment {
                    out.push_str(nl);
                }
                let first = k == 0;
                let indent = if first { "" } else { *s.pick(&["", "  ", "    ", "\t"]) };
                let mut lines: Vec<String> = vec![];
                for (i, para) in paras.iter().enumerate() {
                    if i > 0 {
                        for _ in 0..s.range(1, 2) {
                            lines.push(String::new());
                        }
                    }
                    let ws: Vec<&str> = para.split(' ').collect();
                    let per = s.range(1, 30) as usize;
                    for c in ws.chunks(per) {
                        let l = c.join(" ");
                        if !l.trim().is_empty() {
                            lines.push(l);
                        }
                    }
                }
                for (i, l) in lines.iter().enumerate() {
                    if i > 0 && s.chance(1, 16) {
                        out.push_str(*s.pick(&["\u{a0}", "\u{3000}  ", "\u{c}", "\t \t", "      "]));
                    } else if i > 0 || out.is_empty() || out.ends_with('\n') {
                        out.push_str(indent);
                    }
                    out.push('#');
                    if !l.is_empty() {
                        out.push_str(*s.pick(&[" ", " ", " ", "  ", ""]));
                        out.push_str(l);
                    }
                    if s.chance(1, 8) {
                        out.push_str("  ");
                    }
                    out.push_str(nl);
                }
                // Indentation would make a comment at the start of the file one on the file.
                tight = first;
                after_comment = true;
            }
            Piece::Word(t) | Piece::Sym(t) => {
                if out.is_empty() || out.ends_with('\n') {
                    if !(tight && after_comment) {
                        out.push_str(*s.pick(&["", "", "  ", "    ", "\t", "", "  ", "\u{a0}", "\u{3000}"]));
                    }
                } else {
                    let prev_word = k > 0 && matches!(ps[k - 1], Piece::Word(_));
                    let needed = prev_word && matches!(p, Piece::Word(_));
                    let sep = s.weighted(&[16, if needed { 0 } else { 8 }, 8, 2, 2, 2, 1]);
                    match sep {
                        0 => out.push(' '),
                        1 => {}
                        2 => out.push_str(nl),
                        3 => {
                            out.push_str(nl);
                            out.push_str(nl);
                        }
                        4 => out.push('\t'),
                        5 => out.push_str(*s.pick(&["\u{a0}", "\u{3000}", "\u{b}", "  \u{2028}", "\u{c}", "\u{85}", " \r"])),
                        _ => {
                            let n = s.range(10, 150) as usize;
                            out.push_str(&s.pick(&[" ", nl]).repeat(n));
                        }
                    }
                }
                out.push_str(t);
                after_comment = false;
                tight = false;
            }
        }
        k += 1;
    }
    if s.chance(1, 2) {
        out.push_str(nl);
    }
    out
}

/// The usual layout.
pub fn plain(f: &RFile) -> String {
    let mut s = String::new();
    fn comment(s: &mut String, ind: &str, ps: &[String]) {
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                s.push_str(&format!("{ind}#\n"));
            }
            s.push_str(&format!("{ind}# {p}\n"));
        }
    }
    comment(&mut s, "", &f.comment);
    if !f.comment.is_empty() {
        s.push('\n');
    }
    for i in &f.imports {
        s.push_str(&format!("import '{}'", i.path));
        if let Some(a) = &i.alias {
            s.push_str(&format!(" as {}", name_text(a, false)));
        }
        s.push('\n');
    }
    fn ty(t: &RTy) -> String {
        match t {
            RTy::Prim(p) => (*p).to_owned(),
            RTy::Arr(t) => format!("[{}]", ty(t)),
            RTy::Named(None, n) => name_text(n, false),
            RTy::Named(Some(i), n) => format!("{}.{}", name_text(i, false), name_text(n, false)),
        }
    }
    for (k, d) in f.decls.iter().enumerate() {
        if k > 0 || !f.imports.is_empty() {
            s.push('\n');
        }
        comment(&mut s, "", &d.comment);
        s.push_str(&format!("{} {} {{\n", if d.choice { "choice" } else { "struct" }, name_text(&d.name, false)));
        for x in &d.fields {
            comment(&mut s, "    ", &x.comment);
            s.push_str(match x.rule {
                Rule::Req => "    ",
                Rule::Asym => "    asymmetric ",
                Rule::Opt => "    optional ",
            });
            s.push_str(&name_text(&x.name, false));
            if let Some(t) = &x.ty {
                s.push_str(&format!(": {}", ty(t)));
            }
            s.push_str(&format!(" = {}\n", x.index));
        }
        if let Some(ds) = &d.deleted {
            s.push_str("    deleted");
            for x in ds {
                s.push_str(&format!(" {x}"));
            }
            s.push('\n');
        }
        s.push_str("}\n");
    }
    s
}

// ---- the reference lexer ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T {
    Sym(char),
    Key(&'static str),
    Name(String),
    Int(u64),
    Path(String),
    Comment(Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub start: usize,
    pub end: usize,
}

/// Something wrong with a file, and where.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag {
    /// Relative to the main file's directory; absent if the error isn't about a place in a file.
    pub path: Option<String>,
    pub lines: Option<Lines>,
    /// The line that must be shown.
    pub at: usize,
    pub what: String,
}

pub fn line_of(text: &str, at: usize) -> usize {
    text.as_bytes()[..at.min(text.len())].iter().filter(|b| **b == b'\n').count() + 1
}

pub fn lex(text: &str) -> Result<Vec<Tok>, Vec<(usize, usize, String)>> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |k: usize| cs.get(k).map_or(text.len(), |c| c.0);
    let mut toks = vec![];
    let mut errs = vec![];
    let mut k = 0;
    while k < cs.len() {
        let (i, c) = cs[k];
        if c.is_whitespace() {
            k += 1;
        } else if ":.={[}]".contains(c) {
            k += 1;
            toks.push(Tok { t: T::Sym(c), start: i, end: i + 1 });
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            k += 1;
            while k < cs.len() && (cs[k].1.is_alphanumeric() || cs[k].1 == '_') {
                k += 1;
            }
            let s = &text[i..at(k)];
            let t = if let Some(w) = TYPICAL_KEYWORDS.iter().find(|w| **w == s) {
                T::Key(w)
            } else {
                let n = s.strip_prefix('$').unwrap_or(s);
                if n.is_empty() {
                    errs.push((i, at(k), "empty identifier".to_owned()));
                } else if n.starts_with('_') {
                    errs.push((i, at(k), "identifier starting with _".to_owned()));
                } else if !n.starts_with(char::is_alphabetic) {
                    errs.push((i, at(k), "identifier starting with a digit".to_owned()));
                }
                T::Name(n.to_owned())
            };
            toks.push(Tok { t, start: i, end: at(k) });
        } else if c.is_ascii_digit() {
            while k < cs.len() && cs[k].1.is_ascii_digit() {
                k += 1;
            }
            match text[i..at(k)].parse::<u64>() {
                Ok(n) => toks.push(Tok { t: T::Int(n), start: i, end: at(k) }),
                Err(_) => errs.push((i, at(k), "large integer".to_owned())),
            }
        } else if c == '\'' {
            match cs[k + 1..].iter().position(|c| c.1 == '\'') {
                None => {
                    errs.push((i, i + 1, "unterminated path".to_owned()));
                    k = cs.len();
                }
                Some(n) => {
                    let e = k + 1 + n;
                    toks.push(Tok { t: T::Path(text[i + 1..at(e)].to_owned()), start: i, end: at(e) + 1 });
                    k = e + 1;
                }
            }
        } else if c == '#' {
            let mut lines: Vec<String> = vec![];
            let mut end;
            loop {
                let from = at(k + 1);
                while k < cs.len() && cs[k].1 != '\n' {
                    k += 1;
                }
                end = at(k);
                lines.push(text[from..end].trim().to_owned());
                // Only one line break may separate the lines of a comment.
                let mut j = k + 1;
                while j < cs.len() && cs[j].1.is_whitespace() && cs[j].1 != '\n' {
                    j += 1;
                }
                if j < cs.len() && cs[j].1 == '#' {
                    k = j;
                } else {
                    break;
                }
            }
            let mut paras: Vec<String> = vec![];
            let mut open = false;
            for l in lines {
                if l.is_empty() {
                    open = false;
                } else if open {
                    let p = paras.last_mut().unwrap();
                    p.push(' ');
                    p.push_str(&l);
                } else {
                    paras.push(l);
                    open = true;
                }
            }
            toks.push(Tok { t: T::Comment(paras), start: i, end });
        } else {
            errs.push((i, i + c.len_utf8(), "symbol".to_owned()));
            k += 1;
        }
    }
    if errs.is_empty() {
        Ok(toks)
    } else {
        Err(errs)
    }
}

// ---- the reference parser ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Span {
    pub start: usize,
    pub end: usize,
    /// Where the name is.
    pub name: usize,
}

/// Where the parts of a file are.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Spans {
    pub imports: Vec<Span>,
    pub decls: Vec<Span>,
    pub fields: Vec<Vec<Span>>,
    /// Of the innermost types.
    pub types: Vec<Vec<Span>>,
    pub deleted: Vec<Vec<Span>>,
}

struct P<'a> {
    toks: &'a [Tok],
    k: usize,
}

/// The index of the offending token.
type Oops = usize;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.toks.get(self.k).map(|t| &t.t)
    }
    fn is(&self, t: &T) -> bool {
        self.peek() == Some(t)
    }
    fn sym(&mut self, c: char) -> Result<(), Oops> {
        if self.is(&T::Sym(c)) {
            self.k += 1;
            Ok(())
        } else {
            Err(self.k)
        }
    }
    fn name(&mut self) -> Result<String, Oops> {
        match self.peek() {
            Some(T::Name(n)) => {
                self.k += 1;
                Ok(n.clone())
            }
            _ => Err(self.k),
        }
    }
    fn comment(&mut self) -> Vec<String> {
        match self.peek() {
            Some(T::Comment(c)) => {
                self.k += 1;
                c.clone()
            }
            _ => vec![],
        }
    }
    fn pos(&self, k: usize) -> usize {
        self.toks[k].start
    }
    fn ty(&mut self) -> Result<(RTy, Span), Oops> {
        let at = self.k;
        match self.peek() {
            Some(T::Sym('[')) => {
                self.k += 1;
                let (t, s) = self.ty()?;
                self.sym(']')?;
                Ok((RTy::Arr(Box::new(t)), s))
            }
            Some(T::Key(p)) if ["Unit", "Bool", "F64", "U64", "S64", "Bytes", "String"].contains(p) => {
                self.k += 1;
                Ok((RTy::Prim(p), Span { start: self.pos(at), end: self.toks[at].end, name: self.pos(at) }))
            }
            Some(T::Name(_)) => {
                let n = self.name()?;
                if self.is(&T::Sym('.')) {
                    self.k += 1;
                    let m = self.name()?;
                    let s = Span { start: self.pos(at), end: self.toks[self.k - 1].end, name: self.pos(at) };
                    Ok((RTy::Named(Some(n), m), s))
                } else {
                    Ok((RTy::Named(None, n), Span { start: self.pos(at), end: self.toks[at].end, name: self.pos(at) }))
                }
            }
            _ => Err(self.k),
        }
    }
}

/// Parse a file. An error says which token is the offending one (the number of tokens for the end of the file).
pub fn parse(toks: &[Tok]) -> Result<(RFile, Spans), Oops> {
    parse_noting(toks, &mut vec![])
}

/// The same, noting the indices which are deleted twice and the imports whose names are taken.
fn parse_noting(toks: &[Tok], noted: &mut Vec<(Span, String)>) -> Result<(RFile, Spans), Oops> {
    let mut p = P { toks, k: 0 };
    let mut f = RFile::default();
    let mut sp = Spans::default();
    if let Some(T::Comment(c)) = p.peek() {
        let of_decl = match toks.get(1) {
            Some(Tok { t: T::Key("struct" | "choice"), start, .. }) => *start <= toks[0].end + 1,
            _ => false,
        };
        if !of_decl {
            f.comment = c.clone();
            p.k += 1;
        }
    }
    while p.is(&T::Key("import")) {
        let start = p.k;
        p.k += 1;
        let Some(T::Path(path)) = p.peek() else { return Err(p.k) };
        p.k += 1;
        let mut alias = None;
        if p.is(&T::Key("as")) {
            p.k += 1;
            alias = Some(p.name()?);
        } else if stem(path).is_none() {
            return Err(start);
        }
        let import = RImport { path: path.clone(), alias };
        let span = Span { start: p.pos(start), end: toks[p.k - 1].end, name: p.pos(start) };
        if f.imports.iter().any(|i: &RImport| i.name() == import.name()) {
            noted.push((span.clone(), format!("import name {}", import.name())));
        }
        f.imports.push(import);
        sp.imports.push(span);
    }
    while p.k < toks.len() {
        let start = p.k;
        let comment = p.comment();
        let choice = match p.peek() {
            Some(T::Key("struct")) => false,
            Some(T::Key("choice")) => true,
            _ => return Err(p.k),
        };
        p.k += 1;
        let name_at = p.k;
        let name = p.name()?;
        p.sym('{')?;
        let mut fields = vec![];
        let mut fspans = vec![];
        let mut tspans = vec![];
        while p.k < toks.len() && !p.is(&T::Key("deleted")) && !p.is(&T::Sym('}')) {
            let fstart = p.k;
            let comment = p.comment();
            let rule = match p.peek() {
                Some(T::Key("asymmetric")) => Rule::Asym,
                Some(T::Key("optional")) => Rule::Opt,
                _ => Rule::Req,
            };
            if rule != Rule::Req {
                p.k += 1;
            }
            let fname_at = p.k;
            let name = p.name()?;
            let mut ty = None;
            let mut span = Span { start: p.pos(fname_at), end: p.pos(fname_at), name: p.pos(fname_at) };
            if p.is(&T::Sym(':')) {
                p.k += 1;
                let (t, s) = p.ty()?;
                ty = Some(t);
                span = s;
            }
            p.sym('=')?;
            let Some(T::Int(index)) = p.peek() else { return Err(p.k) };
            p.k += 1;
            fields.push(RField { comment, rule, name, ty, index: *index });
            fspans.push(Span { start: p.pos(fstart), end: toks[p.k - 1].end, name: p.pos(fname_at) });
            tspans.push(span);
        }
        let mut deleted = None;
        let mut dspans = vec![];
        if p.is(&T::Key("deleted")) {
            p.k += 1;
            let mut v = vec![];
            let mut seen = HashSet::new();
            while let Some(T::Int(n)) = p.peek() {
                let span = Span { start: p.pos(p.k), end: toks[p.k].end, name: p.pos(p.k) };
                if !seen.insert(*n) {
                    noted.push((span.clone(), format!("{n} deleted twice")));
                }
                v.push(*n);
                dspans.push(span);
                p.k += 1;
            }
            deleted = Some(v);
        }
        p.sym('}')?;
        f.decls.push(RDecl { comment, choice, name, fields, deleted });
        sp.decls.push(Span { start: p.pos(start), end: toks[p.k - 1].end, name: p.pos(name_at) });
        sp.fields.push(fspans);
        sp.types.push(tspans);
        sp.deleted.push(dspans);
    }
    Ok((f, sp))
}

// ---- the reference loader and validator ----

#[derive(Clone, Debug)]
pub struct Loaded {
    pub rel: String,
    pub text: String,
    pub file: RFile,
    pub spans: Spans,
    /// Import name to namespace.
    pub imports: BTreeMap<String, Vec<String>>,
}

#[derive(Debug, Default)]
pub struct Verdict {
    /// In the order of their namespaces.
    pub files: BTreeMap<Vec<String>, Loaded>,
    pub load: Vec<Diag>,
    /// Syntax errors are only located where parsing first failed in a file.
    pub syntax: Vec<Diag>,
    /// What is noticed before the syntax errors, and may be reported too.
    pub passing: Vec<Diag>,
    pub semantic: Vec<Diag>,
    pub cyclic: bool,
    /// Which type has fields of which (also in arrays), if there are no other errors.
    pub graph: Graph,
}

pub type Graph = BTreeMap<(Vec<String>, String), Vec<(Vec<String>, String)>>;

impl Verdict {
    pub fn loads(&self) -> bool {
        self.load.is_empty() && self.syntax.is_empty()
    }
    pub fn valid(&self) -> bool {
        self.loads() && self.semantic.is_empty() && !self.cyclic
    }
}

fn span_lines(text: &str, s: &Span) -> (Lines, usize) {
    (
        Lines { first: line_of(text, s.start), last: line_of(text, s.end.saturating_sub(1).max(s.start)) },
        line_of(text, s.name),
    )
}

fn diag(rel: &str, text: &str, s: &Span, what: String) -> Diag {
    let (lines, at) = span_lines(text, s);
    Diag { path: Some(rel.to_owned()), lines: Some(lines), at, what }
}

pub fn namespace(rel: &Path) -> Vec<String> {
    rel.with_extension("").components().map(|c| ident(&c.as_os_str().to_string_lossy())).collect()
}

/// Judge the files below `base` (an existing directory), starting from `main`.
pub fn judge(base: &Path, main: &str) -> Verdict {
    let mut v = Verdict::default();
    let base = base.canonicalize().expect("base");
    let mut seen: HashSet<PathBuf> = HashSet::new();
    let mut taken: HashMap<Vec<String>, PathBuf> = HashMap::new();
    let mut todo: Vec<(PathBuf, Option<Diag>)> = vec![(PathBuf::from(main), None)];
    seen.insert(PathBuf::from(main));
    while let Some((rel, origin)) = todo.pop() {
        let r = rel.to_string_lossy().into_owned();
        let text = match std::fs::read(base.join(&rel)).map_err(|_| ()).and_then(|b| String::from_utf8(b).map_err(|_| ())) {
            Ok(t) => t,
            Err(()) => {
                v.load.push(origin.unwrap_or(Diag { path: None, lines: None, at: 0, what: format!("unreadable {r}") }));
                continue;
            }
        };
        let toks = match lex(&text) {
            Ok(t) => t,
            Err(es) => {
                for (s, e, what) in es {
                    v.load.push(diag(&r, &text, &Span { start: s, end: e, name: s }, what));
                }
                continue;
            }
        };
        let mut noted = vec![];
        let (file, spans) = match parse_noting(&toks, &mut noted) {
            Ok(x) => x,
            Err(k) => {
                v.passing.extend(noted.iter().map(|(s, w)| diag(&r, &text, s, w.clone())));
                let (s, e) = match toks.get(k) {
                    Some(t) => (t.start, t.end),
                    None => {
                        let e = toks.last().map_or(0, |t| t.end);
                        (e.saturating_sub(1), e)
                    }
                };
                v.syntax.push(diag(&r, &text, &Span { start: s, end: e, name: s }, format!("syntax, token {k}")));
                continue;
            }
        };
        // These are found while parsing, and then nothing more of the file is used.
        let oops: Vec<Diag> = noted.iter().map(|(s, w)| diag(&r, &text, s, w.clone())).collect();
        if !oops.is_empty() {
            v.load.extend(oops);
            continue;
        }
        let ns = namespace(&rel);
        match taken.get(&ns) {
            Some(_) => v.load.push(Diag { path: None, lines: None, at: 0, what: "namespace taken".into() }),
            None => {
                taken.insert(ns.clone(), rel.clone());
            }
        }
        let mut imports = BTreeMap::new();
        for (i, sp) in file.imports.iter().zip(&spans.imports) {
            let from = base.join(rel.parent().unwrap_or(Path::new("")));
            let target = match from.join(&i.path).canonicalize() {
                Ok(t) => t,
                Err(_) => {
                    v.load.push(diag(&r, &text, sp, format!("missing {}", i.path)));
                    imports.insert(i.name(), vec![]);
                    continue;
                }
            };
            let Ok(t) = target.strip_prefix(&base) else {
                v.load.push(diag(&r, &text, sp, format!("outside {}", i.path)));
                imports.insert(i.name(), vec![]);
                continue;
            };
            imports.insert(i.name(), namespace(t));
            if seen.insert(t.to_owned()) {
                todo.push((t.to_owned(), Some(diag(&r, &text, sp, format!("unreadable {}", i.path)))));
            }
        }
        v.files.insert(ns, Loaded { rel: r, text, file, spans, imports });
    }
    if !v.loads() {
        return v;
    }
    let mut types: HashMap<(Vec<String>, String), (Vec<String>, usize)> = HashMap::new();
    for (ns, l) in &v.files {
        for (k, d) in l.file.decls.iter().enumerate() {
            types.insert((ns.clone(), ident(&d.name)), (ns.clone(), k));
        }
    }
    let mut out = vec![];
    let mut graph = Graph::new();
    for (ns, l) in &v.files {
        let mut names = HashSet::new();
        for (k, d) in l.file.decls.iter().enumerate() {
            let me = &l.spans.decls[k];
            if !names.insert(ident(&d.name)) {
                out.push(diag(&l.rel, &l.text, me, format!("declaration {} twice", d.name)));
            }
            let mut fnames = HashSet::new();
            let mut indices = HashSet::new();
            let deleted: Vec<u64> = d.deleted.clone().unwrap_or_default();
            let dset: BTreeSet<u64> = deleted.iter().copied().collect();
            let mut refs = vec![];
            for (j, x) in d.fields.iter().enumerate() {
                let fs = &l.spans.fields[k][j];
                if !fnames.insert(ident(&x.name)) {
                    out.push(diag(&l.rel, &l.text, fs, format!("field {} twice", x.name)));
                }
                if !indices.insert(x.index) {
                    out.push(diag(&l.rel, &l.text, fs, format!("index {} twice", x.index)));
                }
                if dset.contains(&x.index) {
                    out.push(diag(&l.rel, &l.text, fs, format!("index {} deleted", x.index)));
                }
                if x.index >= 1 << 62 {
                    out.push(diag(&l.rel, &l.text, fs, format!("index {} too large", x.index)));
                }
                let mut t = x.ty.as_ref();
                while let Some(RTy::Arr(i)) = t {
                    t = Some(i);
                }
                if let Some(RTy::Named(i, n)) = t {
                    let target = match i {
                        None => Some(ns.clone()),
                        Some(i) => l.imports.get(&ident(i)).cloned(),
                    };
                    match target.map(|t| (t, ident(n))) {
                        Some(q) if types.contains_key(&q) => refs.push(q),
                        _ => out.push(diag(&l.rel, &l.text, &l.spans.types[k][j], format!("unknown type {n}"))),
                    }
                }
            }
            for i in 0..(indices.len() + dset.len()) as u64 {
                if !indices.contains(&i) && !dset.contains(&i) {
                    out.push(diag(&l.rel, &l.text, me, format!("gap {i} in {}", d.name)));
                }
            }
            graph.insert((ns.clone(), ident(&d.name)), refs);
        }
    }
    v.semantic = out;
    if v.semantic.is_empty() {
        v.cyclic = cyclic(&graph);
        v.graph = graph;
    }
    v
}

fn cyclic(graph: &Graph) -> bool {
    // Remove what depends on nothing that is left.
    let mut left: BTreeMap<_, BTreeSet<_>> =
        graph.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect::<BTreeSet<_>>())).collect();
    loop {
        let done: Vec<_> = left.iter().filter(|(_, v)| v.is_empty()).map(|(k, _)| k.clone()).collect();
        if done.is_empty() {
            return !left.is_empty();
        }
        for d in &done {
            left.remove(d);
        }
        for v in left.values_mut() {
            for d in &done {
                v.remove(d);
            }
        }
    }
}

/// The types which contain themselves, in groups that contain each other.
pub fn cycles(graph: &Graph) -> Vec<BTreeSet<(Vec<String>, String)>> {
    let reach = |from: &(Vec<String>, String)| {
        let mut seen = BTreeSet::new();
        let mut todo = vec![from.clone()];
        while let Some(x) = todo.pop() {
            for y in graph.get(&x).into_iter().flatten() {
                if seen.insert(y.clone()) {
                    todo.push(y.clone());
                }
            }
        }
        seen
    };
    let all: BTreeMap<_, _> = graph.keys().map(|k| (k.clone(), reach(k))).collect();
    let mut out: Vec<BTreeSet<(Vec<String>, String)>> = vec![];
    for (k, r) in &all {
        if r.contains(k) && !out.iter().any(|g| g.contains(k)) {
            out.push(r.iter().filter(|x| all[*x].contains(k)).cloned().collect());
        }
    }
    out
}
