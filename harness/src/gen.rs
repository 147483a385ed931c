//! Generators of schema sets.

use crate::draw::Src;
use crate::model::{relative, Decl, Field, File, Import, Name, Rule, Set, Ty};
use std::collections::HashSet;

const WORDS: &[&str] = &[
    "a", "foo", "bar", "baz", "x", "name", "value", "data", "email", "id", "node", "item", "user", "kind", "first",
    "second", "v4", "utf8", "q", "url",
];

/// Words that occur in the generated code.
const INNER: &[&str] = &[
    "size", "payload", "field", "index", "fallback", "elements", "element", "message", "reader", "writer", "buffer",
    "atlas", "result", "option", "vec", "len", "serialize", "deserialize", "offset", "payload_size", "sub_reader",
    "varint", "zigzag", "data_view", "payload_atlas", "string", "some", "none", "ok", "err", "in", "out", "t",
    "unit", "bytes", "bool", "s64", "i64", "u64", "f64",
];

/// Keywords of Rust, of TypeScript or of the schema language, and properties that all TypeScript objects have.
const KEYWORDS: &[&str] = &[
    "self", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn",
    "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro",
    "macro_rules", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "static", "struct",
    "super", "trait", "true", "try", "type", "typeof", "union", "unsafe", "unsized", "use", "virtual", "where",
    "while", "yield", "gen", "any", "assert", "asserts", "bigint", "boolean", "case", "catch", "class", "constructor",
    "debugger", "declare", "default", "delete", "export", "extends", "finally", "from", "function", "get", "global",
    "implements", "import", "infer", "instanceof", "interface", "intrinsic", "is", "keyof", "module", "namespace",
    "never", "new", "null", "number", "object", "of", "package", "private", "protected", "public", "readonly",
    "require", "set", "string", "switch", "symbol", "this", "throw", "undefined", "unique", "unknown", "var", "void",
    "with", "choice", "optional", "asymmetric", "deleted", "to_string", "value_of", "has_own_property",
    "is_prototype_of", "property_is_enumerable", "to_locale_string", "proto", "length", "prototype", "arguments",
    "eval", "it", "name", "to_string", "value_of", "has_own_property", "is_prototype_of", "property_is_enumerable",
    "to_locale_string", "to_string", "value_of", "has_own_property", "is_prototype_of", "property_is_enumerable",
    "to_locale_string",
];

const UNICODE: &[&str] = &["été", "größe", "имя", "αβγ", "名前", "ñu"];

/// Words whose case conversion is peculiar.
const PECULIAR: &[&str] = &["İx", "ǰa", "ßa", "ıb", "ſo", "ŉ", "ﬁn", "名", "ǆx", "ής", "ΐ", "ﾊ", "ª"];

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Scope {
    Field,
    Type,
    Import,
    Path,
}

pub struct Opts {
    pub max_files: usize,
    pub max_decls: usize,
    pub max_fields: usize,
    /// Names that need care in one of the target languages.
    pub odd_names: bool,
    pub unicode: bool,
    pub comments: bool,
    /// Large indices, through long lists of deleted ones.
    pub big_indices: bool,
    /// Types of which there is no value.
    pub uninhabited: bool,
    pub self_import: bool,
    /// Names made of a word and a suffix which the generated code uses.
    pub mixed_names: bool,
    /// Mostly names that are keywords.
    pub keywords: bool,
    /// Words whose case conversion is peculiar, in names that aren't those of files.
    pub peculiar: bool,
    /// Mostly arrays of arrays.
    pub deep: bool,
    /// Mostly declarations with large indices, near boundaries of all kinds.
    pub wide: bool,
    /// Few declarations, some of them with very many fields.
    pub many: bool,
    /// Many small declarations in many files.
    pub crowd: bool,
    /// Declarations with one or two fields.
    pub tiny: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts {
            max_files: 4,
            max_decls: 7,
            max_fields: 6,
            odd_names: true,
            unicode: true,
            comments: false,
            big_indices: true,
            uninhabited: true,
            self_import: false,
            mixed_names: false,
            keywords: false,
            peculiar: false,
            deep: false,
            wide: false,
            many: false,
            crowd: false,
            tiny: false,
        }
    }
}

/// Names which the tool itself accepts but which one of the targets can't express; see known_findings.json.
fn banned(scope: Scope, n: &Name) -> bool {
    let s = n.snake();
    if s == "constructor" && scope != Scope::Import {
        return scope != Scope::Field;
    }
    match scope {
        // These would hide the global objects which the generated TypeScript uses, or a module the Rust uses.
        Scope::Type | Scope::Path => [
            "error", "array", "string", "number", "object", "bigint", "big_int", "data_view", "array_buffer",
            "text_encoder", "text_decoder", "uint8_array", "math", "symbol", "promise", "boolean", "std", "io",
            "function",
        ]
        .contains(&s.as_str()),
        _ => false,
    }
}

pub fn gen_name(s: &mut Src, o: &Opts, scope: Scope, used: &mut HashSet<String>) -> Name {
    for attempt in 0..40 {
        let kind = s.weighted(&[10, if o.odd_names { 3 } else { 0 }, if o.keywords { 40 } else if o.odd_names { 3 } else { 0 }, u64::from(o.unicode), if o.mixed_names { 2 } else { 0 }, u64::from(o.odd_names), u64::from(o.peculiar)]);
        let n = match kind {
            0 => {
                let k = match s.weighted(&[50, 30, 10, 1]) {
                    3 => s.range(4, 9) as usize,
                    k => 1 + k,
                };
                Name((0..k).map(|_| (*s.pick(WORDS)).to_owned()).collect())
            }
            1 => Name((*s.pick(INNER)).split('_').map(str::to_owned).collect()),
            2 => Name((*s.pick(KEYWORDS)).split('_').map(str::to_owned).collect()),
            5 if scope != Scope::Path => {
                // Words that start with digits.
                let d = *s.pick(&["1", "2b", "0", "64"]);
                let w = *s.pick(&["foo", "bar", "v", "x"]);
                match s.below(3) {
                    0 => Name::of(&[w, d]),
                    1 => Name::of(&[w, d, *s.pick(&["1", "foo"])]),
                    _ => Name(vec![format!("{w}{d}")]),
                }
            }
            6 if scope != Scope::Path => {
                let p = *s.pick(PECULIAR);
                match s.below(3) {
                    0 => Name::of(&[p]),
                    1 => Name::of(&["foo", p]),
                    _ => Name::of(&[p, "bar"]),
                }
            }
            4 => Name::of(&[*s.pick(&["a", "foo", "bar", "x", "name"]), *s.pick(&["out", "in", "atlas", "field", "fallback", "foo"])]),
            _ => {
                if scope == Scope::Path {
                    Name::of(&["zeta"])
                } else {
                    Name::of(&[*s.pick(UNICODE)])
                }
            }
        };
        let n = if attempt > 20 { Name(vec![format!("n{attempt}"), format!("m{}", used.len())]) } else { n };
        if banned(scope, &n) {
            continue;
        }
        if used.insert(n.key()) {
            return n;
        }
    }
    let n = Name(vec![format!("w{}", used.len()), "zz".into()]);
    used.insert(n.key());
    n
}

pub fn gen_comment(s: &mut Src) -> Vec<String> {
    let mut out = vec![];
    let paragraphs = s.weighted(&[12, 4, 2, 1, 1]);
    for _ in 0..paragraphs {
        let words = match s.below(3) {
            0 => s.range(1, 4),
            1 => s.range(1, 12),
            _ => s.range(10, 40),
        };
        let ws: Vec<String> = (0..words)
            .map(|_| {
                if s.chance(1, 40) {
                    // As long as a line, or longer.
                    let n = s.range(60, 260) as usize;
                    let unit = *s.pick(&["x", "ab-", "a/", "é", "世", "#", "word_", "e\u{301}", "a.b:"]);
                    return unit.chars().cycle().take(n).collect();
                }
                (*s.pick(&[
                    "the", "field", "is", "#", "##", "well-known", "a", "'quoted'", "{", "}", "struct", "choice", "=", "0", "été",
                    "世界", "$x", "e.g.", "import", "http://example.com/a-b-c", "deleted", "🦀", "--", "a/b", "x-", "-y",
                    "(foo)", "\"bar\"", ",", "!", "re-use", "", "x\u{3000}y", "a\rb", "\u{a0}z", "tab\tbed", "\u{ad}soft", "e\u{301}", "ﷺ", "long-hyphenated-word-chain-which-goes-on-and-on",
                ]))
                .to_owned()
            })
            .collect();
        if ws.iter().all(|w| w.trim().is_empty()) {
            continue;
        }
        out.push(ws.join(" ").trim().to_owned());
    }
    out
}

fn gen_ty(s: &mut Src, o: &Opts, earlier: &[(usize, usize)], boost: &HashSet<(usize, usize)>) -> Ty {
    let depth = if o.deep { s.weighted(&[2, 2, 4, 6, 3, 1]) } else { s.weighted(&[12, 6, 4, 2, 1]) };
    let refs = if earlier.is_empty() { 0 } else { 7 };
    let leaf = match s.weighted(&[2, 2, 2, 2, 2, 2, 2, refs]) {
        0 => Ty::Unit,
        1 => Ty::Bool,
        2 => Ty::U64,
        3 => Ty::S64,
        4 => Ty::F64,
        5 => Ty::Bytes,
        6 => Ty::Str,
        _ => {
            // Prefer what nothing refers to yet.
            let lonely: Vec<(usize, usize)> = earlier.iter().filter(|x| boost.contains(x)).copied().collect();
            let (f, d) = if !lonely.is_empty() && s.chance(1, 2) { *s.pick(&lonely) } else { *s.pick(earlier) };
            Ty::Ref(f, d)
        }
    };
    let mut t = leaf;
    for _ in 0..depth {
        t = Ty::Arr(Box::new(t));
    }
    t
}

fn mentions(t: &Ty, out: &mut Vec<(usize, usize)>) {
    match t {
        Ty::Arr(t) => mentions(t, out),
        Ty::Ref(f, d) => out.push((*f, *d)),
        _ => {}
    }
}

pub fn gen_rule(s: &mut Src) -> Rule {
    match s.weighted(&[5, 3, 4]) {
        0 => Rule::Req,
        1 => Rule::Asym,
        _ => Rule::Opt,
    }
}

/// Indices for `n` fields, and the deleted ones.
pub fn gen_indices(s: &mut Src, o: &Opts, n: usize) -> (Vec<u64>, Vec<u64>) {
    let weights: [u64; 6] = if !o.big_indices {
        [8, 3, 0, 0, 0, 0]
    } else if o.wide {
        [1, 1, 2, 3, 3, 2]
    } else {
        [12, 4, 3, 1, 1, 1]
    };
    let gaps = match s.weighted(&weights) {
        0 => 0,
        1 => s.range(1, 4) as usize,
        2 => s.range(24, 60) as usize,
        3 => s.range(60, 140) as usize,
        4 => s.range(250, 300) as usize,
        _ if o.wide && s.chance(1, 12) => s.range(528_405, 528_425) as usize,
        _ if o.wide && s.chance(1, 3) => *s.pick(&[1 << 13, 1 << 14, 1 << 15, 1 << 16]) + s.below(8) as usize,
        _ => s.range(4090, 4140) as usize,
    };
    let total = n + gaps;
    let mut fields: Vec<u64> = vec![];
    if gaps > 5 {
        // Mostly near the boundaries of the tag's size.
        let mut pool: Vec<u64> =
            [0, 30, 31u64, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 8191, 8192, 16_383, 16_384, 32_767, 32_768, 65_535, 65_536, 4126, 4127, 4128, 4129, 528_414, 528_415, 528_416, 528_417, total as u64 - 1].iter().copied().filter(|x| *x < total as u64).collect();
        pool.sort_unstable();
        pool.dedup();
        let mut seen = HashSet::new();
        while fields.len() < n {
            let i = if s.chance(2, 3) { *s.pick(&pool) } else { s.below(total as u64) };
            if seen.insert(i) {
                fields.push(i);
            } else {
                // The next free one.
                let mut j = i;
                loop {
                    j = (j + 1) % total as u64;
                    if seen.insert(j) {
                        fields.push(j);
                        break;
                    }
                }
            }
        }
    } else {
        let mut all: Vec<u64> = (0..total as u64).collect();
        if s.chance(1, 2) {
            s.shuffle(&mut all);
        }
        fields.extend_from_slice(&all[..n]);
    }
    let set: HashSet<u64> = fields.iter().copied().collect();
    let mut deleted: Vec<u64> = (0..total as u64).filter(|i| !set.contains(i)).collect();
    if s.chance(1, 4) {
        s.shuffle(&mut deleted);
    }
    (fields, deleted)
}

pub fn gen_decl(
    s: &mut Src,
    o: &Opts,
    name: Name,
    earlier: &[(usize, usize)],
    boost: &HashSet<(usize, usize)>,
    inhabited: &dyn Fn(&Ty) -> bool,
) -> Decl {
    let choice = s.chance(1, 2);
    let n = match s.weighted(&[8, 2, 1]) {
        0 if o.many && s.chance(1, 2) => s.range(15, 130) as usize,
        0 => s.range(1, o.max_fields.max(1) as u64) as usize,
        1 => 1,
        _ => 0,
    };
    let mut used = HashSet::new();
    let (indices, deleted) = gen_indices(s, o, n);
    let mut fields = vec![];
    for index in indices {
        let name = gen_name(s, o, Scope::Field, &mut used);
        let rule = gen_rule(s);
        let ty = gen_ty(s, o, earlier, boost);
        let comment = if o.comments { gen_comment(s) } else { vec![] };
        fields.push(Field { name, rule, ty, index, comment });
    }
    if choice && !fields.is_empty() && !(o.uninhabited && s.chance(1, 10)) {
        // Make sure that there is a value.
        if !fields.iter().any(|f| f.rule == Rule::Req && inhabited(&f.ty)) {
            let i = s.size(fields.len());
            fields[i].rule = Rule::Req;
            if !inhabited(&fields[i].ty) {
                fields[i].ty = Ty::Unit;
            }
        }
    }
    let comment = if o.comments { gen_comment(s) } else { vec![] };
    Decl { name, choice, fields, deleted, comment }
}

pub fn gen_set(s: &mut Src, o: &Opts) -> Set {
    if o.odd_names && !o.keywords && s.chance(1, 6) {
        let k = Opts { keywords: true, max_fields: o.max_fields.max(14), max_decls: o.max_decls, max_files: o.max_files, ..*o };
        return gen_set(s, &k);
    }
    if o.big_indices && !(o.deep || o.wide || o.many || o.crowd || o.tiny) {
        match s.weighted(&[14, 2, 2, 1, 1, 1]) {
            0 => {}
            1 => return gen_set(s, &Opts { deep: true, ..*o }),
            2 => return gen_set(s, &Opts { wide: true, ..*o }),
            3 => return gen_set(s, &Opts { many: true, max_decls: o.max_decls.min(3), ..*o }),
            4 if o.max_files > 2 => {
                return gen_set(s, &Opts { crowd: true, max_decls: 24, max_files: 9, max_fields: 2, ..*o })
            }
            _ => return gen_set(s, &Opts { tiny: true, max_fields: 2, ..*o }),
        }
    }
    let mut set = Set::default();
    let nfiles = match s.weighted(&[5, 3, 2]) {
        _ if o.crowd => s.range(4, o.max_files.max(4) as u64) as usize,
        0 => 1,
        1 => s.range(1, 2) as usize,
        _ => s.range(2, o.max_files.max(2) as u64) as usize,
    }
    .min(o.max_files);
    let mut paths: HashSet<Vec<String>> = HashSet::new();
    let mut dirs_pool: Vec<Vec<Name>> = vec![vec![]];
    for i in 0..nfiles {
        let dirs = if i == 0 {
            vec![]
        } else {
            let base = s.pick(&dirs_pool).clone();
            let mut d = base;
            let extra = s.weighted(&[3, 3, 1]);
            for _ in 0..extra {
                if d.len() < if o.crowd { 7 } else { 4 } {
                    let mut used = HashSet::new();
                    d.push(gen_name(s, o, Scope::Path, &mut used));
                }
            }
            d
        };
        let mut used = HashSet::new();
        for p in &paths {
            let keys: Vec<String> = dirs.iter().map(Name::key).collect();
            if p.len() == keys.len() + 1 && p[..keys.len()] == keys[..] {
                used.insert(p[keys.len()].clone());
            }
        }
        // A file may have the name of a directory.
        let beside: Vec<Name> = set
            .files
            .iter()
            .filter(|f| f.dirs.len() > dirs.len() && f.dirs[..dirs.len()] == dirs[..])
            .map(|f| f.dirs[dirs.len()].clone())
            .filter(|n| !used.contains(&n.key()))
            .collect();
        let stem = if !beside.is_empty() && s.chance(1, 3) {
            s.pick(&beside).clone()
        } else {
            gen_name(s, o, Scope::Path, &mut used)
        };
        let mut comps: Vec<String> = dirs.iter().map(Name::key).collect();
        comps.push(stem.key());
        // A later component with the name of a first one hides it in the TypeScript (see known_findings.json).
        let hides = comps[1..].contains(&comps[0])
            || paths.iter().any(|p| p[1..].contains(&comps[0]) || comps[1..].contains(&p[0]));
        if hides || paths.contains(&comps) {
            continue;
        }
        // Two spellings of one directory name would be two directories.
        let all = {
            let mut v = dirs.clone();
            v.push(stem.clone());
            v
        };
        let respelled = set.files.iter().any(|f| {
            f.components().iter().zip(&all).any(|(a, b)| a.key() == b.key() && a != b)
        });
        if respelled {
            continue;
        }
        paths.insert(comps);
        for k in 1..=dirs.len() {
            let d = dirs[..k].to_vec();
            if !dirs_pool.contains(&d) {
                dirs_pool.push(d);
            }
        }
        if s.chance(1, 3) && !dirs_pool.contains(&all) {
            // A directory may have the name of a file.
            dirs_pool.push(all);
        }
        let comment = if o.comments { gen_comment(s) } else { vec![] };
        set.files.push(File { dirs, stem, imports: vec![], decls: vec![], comment });
    }
    let nfiles = set.files.len();
    let ndecls = if o.crowd {
        s.range(8, o.max_decls.max(8) as u64) as usize
    } else if s.chance(1, 25) {
        0
    } else { s.range(1, o.max_decls.max(1) as u64) as usize };
    let mut earlier: Vec<(usize, usize)> = vec![];
    let mut lonely: HashSet<(usize, usize)> = HashSet::new();
    let mut used: Vec<HashSet<String>> = vec![HashSet::new(); nfiles];
    for f in &set.files {
        // All first components can be referred to from anywhere, and in the generated TypeScript a type of that
        // name would hide the namespace (see known_findings.json).
        let first = f.components()[0].key();
        for u in &mut used {
            u.insert(first.clone());
        }
    }
    for _ in 0..ndecls {
        let f = s.size(nfiles);
        let name = gen_name(s, o, Scope::Type, &mut used[f]);
        let d = {
            let sref = &set;
            gen_decl(s, o, name, &earlier, &lonely, &|t: &Ty| sref.ty_inhabited(t))
        };
        for fl in &d.fields {
            let mut m = vec![];
            mentions(&fl.ty, &mut m);
            for x in m {
                lonely.remove(&x);
            }
        }
        let id = (f, set.files[f].decls.len());
        set.files[f].decls.push(d);
        earlier.push(id);
        lonely.insert(id);
    }
    // The imports that are needed, and then some.
    for f in 0..nfiles {
        let mut need = vec![];
        for d in &set.files[f].decls {
            for fl in &d.fields {
                mentions(&fl.ty, &mut need);
            }
        }
        let mut targets: Vec<usize> = need.iter().map(|x| x.0).filter(|x| *x != f).collect();
        targets.sort_unstable();
        targets.dedup();
        if s.chance(1, 6) {
            let t = s.size(nfiles);
            if t != f || o.self_import {
                targets.push(t);
            }
        }
        targets.sort_unstable();
        targets.dedup();
        for t in targets {
            set.files[f].imports.push(Import { target: t, alias: None, path: None });
        }
    }
    // Everything must be reachable from the main file.
    loop {
        let mut seen = HashSet::new();
        let mut todo = vec![0];
        while let Some(f) = todo.pop() {
            if seen.insert(f) {
                todo.extend(set.files[f].imports.iter().map(|i| i.target));
            }
        }
        let missing = (0..nfiles).find(|f| !seen.contains(f));
        let Some(m) = missing else { break };
        let reached: Vec<usize> = (0..nfiles).filter(|f| seen.contains(f)).collect();
        let from = *s.pick(&reached);
        set.files[from].imports.push(Import { target: m, alias: None, path: None });
    }
    for f in 0..nfiles {
        let mut names = HashSet::new();
        for k in 0..set.files[f].imports.len() {
            let t = set.files[f].imports[k].target;
            let own = set.files[t].stem.clone();
            if s.chance(1, 3) || names.contains(&own.key()) {
                let a = gen_name(s, o, Scope::Import, &mut names);
                set.files[f].imports[k].alias = Some(a);
            } else {
                names.insert(own.key());
            }
        }
        let mut imports = std::mem::take(&mut set.files[f].imports);
        s.shuffle(&mut imports);
        set.files[f].imports = imports;
    }
    shuffle_decls(&mut set, s);
    set
}

/// Reorder the declarations within each file.
fn shuffle_decls(set: &mut Set, s: &mut Src) {
    let mut maps: Vec<Vec<usize>> = vec![];
    for f in &set.files {
        let mut order: Vec<usize> = (0..f.decls.len()).collect();
        if s.chance(1, 2) {
            s.shuffle(&mut order);
        }
        // order[new] = old
        let mut map = vec![0; order.len()];
        for (new, old) in order.iter().enumerate() {
            map[*old] = new;
        }
        maps.push(map);
    }
    fn fix(t: &mut Ty, maps: &[Vec<usize>]) {
        match t {
            Ty::Arr(t) => fix(t, maps),
            Ty::Ref(f, d) => *d = maps[*f][*d],
            _ => {}
        }
    }
    for (i, f) in set.files.iter_mut().enumerate() {
        let mut decls: Vec<Option<Decl>> = f.decls.drain(..).map(Some).collect();
        let mut out: Vec<Option<Decl>> = vec![None; decls.len()];
        for (old, d) in decls.iter_mut().enumerate() {
            out[maps[i][old]] = d.take();
        }
        f.decls = out.into_iter().map(Option::unwrap).collect();
        for d in &mut f.decls {
            for fl in &mut d.fields {
                fix(&mut fl.ty, &maps);
            }
        }
    }
}

/// A sensible spelling of an import path that names the same file.
pub fn respell(s: &mut Src, from: &File, to: &File) -> String {
    let plain = relative(from, to);
    match s.below(4) {
        0 => plain,
        1 => format!("./{plain}"),
        2 => {
            // Up and down again.
            match from.dirs.last() {
                Some(d) => format!("../{}/{plain}", d.snake()),
                None => plain,
            }
        }
        _ => plain.replacen('/', "//", 1),
    }
}
