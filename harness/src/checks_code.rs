//! The checks which execute generated code.

use crate::code::{inhabited, run, Case, Env, Plan, Unit, Witness};
use crate::draw::{hash_str, Src};
use crate::exec::{Crash, Decoded, Io, FAULTS};
use crate::gen::{gen_rule, gen_set, Opts};
use crate::json::{hex, obj, J};
use crate::model::{Decl, Field, Name, Rule, Set, Ty};
use crate::report::{clip, fail, Ctx, Failure, Info};
use crate::ts::{TsCrash, VIEWS};
use crate::value::{gen_val, Limits, Val};
use crate::wire::{self, encode, encode_sized_units, Bad, Enc, Perturb};

fn one(s: &mut Src) -> Unit {
    vec![gen_set(s, &Opts::default())]
}

fn fuel(s: &mut Src) -> Limits {
    Limits { fuel: *s.pick(&[12, 30, 80, 250]), marks: false }
}

fn value(env: &Env, s: &mut Src) -> Val {
    let mut l = Limits { marks: true, ..fuel(s) };
    let v = gen_val(env.set(), &Ty::Ref(env.ty.0, env.ty.1), s, &mut l);
    // JavaScript has one NaN only.
    if env.ts.is_some() {
        v.canon_nan()
    } else {
        v
    }
}

pub fn show(v: &Val) -> String {
    clip(&v.to_json().text(), 700)
}

fn has(v: &Val, f: &dyn Fn(&Val) -> bool) -> bool {
    f(v) || match v {
        Val::Arr(a) => a.iter().any(|x| has(x, f)),
        Val::Struct(a) => a.iter().flatten().any(|x| has(x, f)),
        Val::Choice(_, x, fb) => has(x, f) || fb.as_ref().is_some_and(|x| has(x, f)),
        _ => false,
    }
}

fn classes(v: &Val) -> Vec<&'static str> {
    let mut c = vec![];
    if has(v, &|x| matches!(x, Val::Choice(_, _, Some(_)))) {
        c.push("with a fallback");
    }
    if has(v, &|x| matches!(x, Val::Arr(a) if a.iter().any(|y| matches!(y, Val::Arr(b) if !b.is_empty())))) {
        c.push("with nested arrays");
    }
    if has(v, &|x| matches!(x, Val::Arr(a) if a.iter().any(|y| matches!(y, Val::Struct(_) | Val::Choice(..))))) {
        c.push("with an array of messages");
    }
    if has(v, &|x| matches!(x, Val::Struct(a) if a.iter().any(Option::is_none))) {
        c.push("with an absent field");
    }
    if has(v, &|x| matches!(x, Val::F64(b) if f64::from_bits(*b).is_nan())) {
        c.push("with a NaN");
    }
    if has(v, &|x| matches!(x, Val::U64(n) if *n >= 567_382_630_219_904) || matches!(x, Val::S64(n) if n.unsigned_abs() > 1 << 50)) {
        c.push("with a large integer");
    }
    c
}

fn info(env: &Env, v: &Val, bytes: &[u8]) -> Info {
    Info {
        nontrivial: v.weight() >= 3 && bytes.len() >= 2,
        hash: hash_str(&format!("{} {:?} {}", env.unit, env.ty, hex(bytes))),
        classes: classes(v),
        runs: 1,
        sample: Some(format!("{} = {} -> {}", env.type_name(), show(v), clip(&hex(bytes), 300))),
    }
}

const VALUE_RULE: &str = "A case is a generated schema set (files, imports, structs, choices, rules, types, indices), one of \
its types and a generated value. Non-trivial: the value has at least two components and its encoding at least two bytes; \
distinct by schema, type and encoding.";

fn crash<T>(what: &str, c: &Crash) -> Result<T, Failure> {
    let sig = match c {
        Crash::Panic(_) => "panic",
        Crash::Livelock => "livelock",
        Crash::Died(_) => "died",
        Crash::Units => "units",
    };
    fail(&format!("{what}: {sig}"), format!("{what}: {c:?}"))
}

fn ts_crash<T>(what: &str, c: &TsCrash) -> Result<T, Failure> {
    let sig = match c {
        TsCrash::Throw(_) => "throws",
        TsCrash::Shape(_) => "shape",
        TsCrash::Units => "units",
        TsCrash::Died(_) => "died",
    };
    fail(&format!("{what}: {sig}"), format!("{what}: {c:?}"))
}

fn rust_encode(env: &mut Env, i: usize, v: &Val) -> Result<(u64, Vec<u8>), Failure> {
    let k = env.key(i);
    match env.rust.as_mut().unwrap().encode(&k, v, &Io::default()) {
        Ok(e) => match e.error {
            None => Ok((e.size, e.bytes)),
            Some(x) => fail("rust writer: error", format!("the Rust writer failed with {x:?} for {}", show(v))),
        },
        Err(c) => crash("rust writer", &c).map_err(|mut f: Failure| {
            f.text = format!("{} for {}", f.text, show(v));
            f
        }),
    }
}

fn ts_encode(env: &mut Env, i: usize, v: &Val) -> Result<(f64, Vec<u8>), Failure> {
    let k = env.key(i);
    match env.ts.as_mut().unwrap().encode(&k, v) {
        Ok(e) => Ok((e.size, e.bytes)),
        Err(c) => ts_crash("typescript writer", &c).map_err(|mut f: Failure| {
            f.text = format!("{} for {}", f.text, show(v));
            f
        }),
    }
}

/// Decode a message that has a settled meaning.
fn rust_read(env: &mut Env, i: usize, b: &[u8], want: &Val, what: &str) -> Result<(), Failure> {
    let k = env.key(i);
    match env.rust.as_mut().unwrap().decode(&k, b, &Io::default()) {
        Ok(Decoded { result: Ok(v), consumed, .. }) => {
            if v != *want {
                return fail(
                    &format!("{what}: rust reader: value"),
                    format!("{what}: the Rust reader made {} of {}; expected {}", show(&v), clip(&hex(b), 600), show(want)),
                );
            }
            if consumed != b.len() as u64 {
                return fail(
                    &format!("{what}: rust reader: consumption"),
                    format!("{what}: the Rust reader consumed {consumed} of the {} bytes {}", b.len(), clip(&hex(b), 600)),
                );
            }
            Ok(())
        }
        Ok(Decoded { result: Err(e), .. }) => fail(
            &format!("{what}: rust reader: error"),
            format!("{what}: the Rust reader rejected {} with {e:?}; expected {}", clip(&hex(b), 600), show(want)),
        ),
        Err(c) => crash(&format!("{what}: rust reader"), &c),
    }
}

/// Whether the values differ only in the byte order marks with which strings start.
fn lost_marks(want: &Val, got: &Val) -> Option<String> {
    (want.canon_nan().without_marks() == got.canon_nan()).then(|| "leading-byte-order-mark".to_owned())
}

fn ts_read(env: &mut Env, i: usize, b: &[u8], view: (usize, usize), want: &Val, what: &str) -> Result<(), Failure> {
    let k = env.key(i);
    let ty = env.ty;
    let set = &env.sets[i];
    match env.ts.as_mut().unwrap().decode(set, ty, &k, b, view.0, view.1) {
        Ok(Ok(v)) => {
            if v.canon_nan() != want.canon_nan() {
                return Err(Failure {
                    sig: format!("{what}: typescript reader: value"),
                    text: format!(
                        "{what}: the TypeScript reader made {} of {}; expected {}",
                        show(&v),
                        clip(&hex(b), 600),
                        show(want)
                    ),
                    known: lost_marks(want, &v),
                });
            }
            Ok(())
        }
        Ok(Err(e)) => fail(
            &format!("{what}: typescript reader: error"),
            format!("{what}: the TypeScript reader rejected {} with {e}; expected {}", clip(&hex(b), 600), show(want)),
        ),
        Err(c) => ts_crash(&format!("{what}: typescript reader"), &c),
    }
}

fn plan<'a>(ctx: &Ctx, make: &'a (dyn Fn(&mut Src) -> Unit + Sync), rust: bool, ts: bool, case: &'a Case) -> Plan<'a> {
    Plan {
        units: ctx.n(200, 900),
        cases: ctx.n(40, 150),
        make,
        rust,
        ts,
        case,
        wants: &inhabited,
        known: ctx.known(),
        witnesses: vec![],
    }
}

// ---- C01, C02: the bytes ----

fn compare_bytes(env: &Env, v: &Val, got: &[u8], lang: &str) -> Result<Info, Failure> {
    let want = encode(env.set(), env.ty.0, env.ty.1, v);
    if want == got {
        return Ok(info(env, v, got));
    }
    let text = format!(
        "the {lang} encoding of {} is {}; the documented one is {}",
        show(v),
        clip(&hex(got), 600),
        clip(&hex(&want), 600)
    );
    if encode_sized_units(env.set(), env.ty.0, env.ty.1, v) == got {
        return Err(Failure { sig: "sized units".into(), text, known: Some("sized-unit-arrays".into()) });
    }
    fail("bytes", text)
}

fn c01_on(env: &mut Env, v: &Val) -> Result<Info, Failure> {
    let (_, b) = rust_encode(env, 0, v)?;
    compare_bytes(env, v, &b, "Rust")
}

fn c01(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let v = value(env, s);
    c01_on(env, &v)
}

fn c02_on(env: &mut Env, v: &Val) -> Result<Info, Failure> {
    let (_, b) = ts_encode(env, 0, v)?;
    compare_bytes(env, v, &b, "TypeScript")
}

fn c02(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let v = value(env, s);
    c02_on(env, &v)
}

// ---- C03, C05: round trips ----

fn c03(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let v = value(env, s);
    let want = v.as_in(env.set(), &Ty::Ref(env.ty.0, env.ty.1));
    let (_, b) = rust_encode(env, 0, &v)?;
    rust_read(env, 0, &b, &want, "round trip")?;
    let k = env.key(0);
    match env.rust.as_mut().unwrap().convert(&k, &v) {
        Ok(x) if x == want => {}
        Ok(x) => {
            return fail(
                "conversion",
                format!("converting {} to the reader's type gave {}; expected {}", show(&v), show(&x), show(&want)),
            )
        }
        Err(c) => return crash("conversion", &c),
    }
    Ok(info(env, &v, &b))
}

fn c05(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let v = value(env, s);
    let want = v.as_in(env.set(), &Ty::Ref(env.ty.0, env.ty.1));
    let (_, b) = ts_encode(env, 0, &v)?;
    // A view that the message's length allows.
    let mut kinds: Vec<usize> = vec![0, 1, 2, 3, 4];
    if b.len() % 2 == 0 {
        kinds.extend([5, 6]);
    }
    if b.len() % 4 == 0 {
        kinds.extend([7, 8, 9]);
    }
    if b.len() % 8 == 0 {
        kinds.extend(10..VIEWS);
    }
    let kind = *s.pick(&kinds);
    let pad = s.size(9);
    ts_read(env, 0, &b, (kind, pad), &want, "round trip")?;
    let mut i = info(env, &v, &b);
    i.classes.push(match kind {
        0 => "read from an ArrayBuffer",
        1 => "read from a DataView",
        2..=4 => "read from an array of bytes",
        _ => "read from an array of wider elements",
    });
    Ok(i)
}

// ---- C04: sizes ----

fn c04(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let v = value(env, s);
    let (n, b) = rust_encode(env, 0, &v)?;
    if n != b.len() as u64 {
        return fail("rust size", format!("the Rust size of {} is {n}, but {} bytes were written", show(&v), b.len()));
    }
    let (m, c) = ts_encode(env, 0, &v)?;
    if m != c.len() as f64 {
        return fail("typescript size", format!("the TypeScript size of {} is {m}, not {}", show(&v), c.len()));
    }
    let mut i = info(env, &v, &b);
    i.runs = 2;
    Ok(i)
}

// ---- C06: the two languages ----

fn c06(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let v = value(env, s);
    let want = v.as_in(env.set(), &Ty::Ref(env.ty.0, env.ty.1));
    let (_, r) = rust_encode(env, 0, &v)?;
    let (_, t) = ts_encode(env, 0, &v)?;
    if r != t {
        return fail(
            "bytes differ",
            format!("{} is {} in Rust and {} in TypeScript", show(&v), clip(&hex(&r), 600), clip(&hex(&t), 600)),
        );
    }
    ts_read(env, 0, &r, (0, 0), &want, "Rust to TypeScript")?;
    rust_read(env, 0, &t, &want, "TypeScript to Rust")?;
    let mut i = info(env, &v, &r);
    i.runs = 2;
    Ok(i)
}

// ---- C07, C08: schema changes ----

fn fresh_name(s: &mut Src, d: &crate::model::Decl) -> Name {
    let mut used: std::collections::HashSet<String> = d.fields.iter().map(|f| f.name.key()).collect();
    crate::gen::gen_name(s, &Opts { unicode: false, ..Opts::default() }, crate::gen::Scope::Field, &mut used)
}

fn leaf(s: &mut Src) -> Ty {
    let t = s
        .pick(&[Ty::Unit, Ty::Bool, Ty::U64, Ty::S64, Ty::F64, Ty::Bytes, Ty::Str, Ty::Arr(Box::new(Ty::U64)), Ty::Arr(Box::new(Ty::Str))])
        .clone();
    if s.chance(1, 5) {
        Ty::Arr(Box::new(t))
    } else {
        t
    }
}

/// One change of the kind that is documented to be safe. Declarations keep their places.
pub fn evolve(s: &mut Src, old: &Set, choices: bool) -> Set {
    let mut new = old.clone();
    for (f, d) in old.types() {
        let decl = &mut new.files[f].decls[d];
        let single = decl.fields.len() == 1 && decl.fields[0].rule == Rule::Req;
        if single && choices && s.chance(1, 2) {
            decl.choice = !decl.choice;
            continue;
        }
        if decl.choice != choices || s.chance(1, 5) {
            continue;
        }
        let mut i = 0;
        while i < decl.fields.len() {
            let rule = decl.fields[i].rule;
            match s.weighted(&[4, 4, 3]) {
                0 => {}
                1 => {
                    decl.fields[i].rule = match rule {
                        Rule::Asym => {
                            if s.chance(1, 2) {
                                Rule::Opt
                            } else {
                                Rule::Req
                            }
                        }
                        _ => Rule::Asym,
                    };
                }
                _ => {
                    if rule != Rule::Req {
                        let x = decl.fields.remove(i);
                        decl.deleted.push(x.index);
                        continue;
                    }
                }
            }
            if s.chance(1, 4) {
                let n = fresh_name(s, decl);
                decl.fields[i].name = n;
            }
            i += 1;
        }
        let added = s.weighted(&[3, 3, 2, 1]);
        let mut next = (old.decl(f, d).fields.len() + old.decl(f, d).deleted.len()) as u64;
        if s.chance(1, 8) {
            // Past a boundary of the header's size.
            let far = if s.chance(1, 2) { 33 } else { 4130 };
            while next < far {
                decl.deleted.push(next);
                next += 1;
            }
        }
        for _ in 0..added {
            let rule = if s.chance(1, 2) { Rule::Asym } else { Rule::Opt };
            let name = fresh_name(s, decl);
            let at = s.size(decl.fields.len() + 1);
            let ty = leaf(s);
            decl.fields.insert(at, Field { name, rule, ty, index: next, comment: vec![] });
            next += 1;
        }
        if s.chance(1, 3) {
            let mut fs = std::mem::take(&mut decl.fields);
            s.shuffle(&mut fs);
            decl.fields = fs;
        }
        let _ = gen_rule;
    }
    new
}

/// What a reader of the set `b` is documented to make of a value written with the set `a`.
pub fn migrate(a: &Set, b: &Set, ta: &Ty, tb: &Ty, v: &Val) -> Result<Val, String> {
    match (ta, tb, v) {
        (Ty::Arr(x), Ty::Arr(y), Val::Arr(vs)) => {
            Ok(Val::Arr(vs.iter().map(|v| migrate(a, b, x, y, v)).collect::<Result<_, _>>()?))
        }
        (Ty::Ref(fa, da), Ty::Ref(fb, db), _) => {
            let (wa, rb) = (a.decl(*fa, *da), b.decl(*fb, *db));
            // The fields in the order in which they are met.
            let mut met: Vec<(u64, &Ty, &Val)> = vec![];
            match v {
                Val::Struct(fs) => {
                    for (fl, x) in wa.fields.iter().zip(fs) {
                        if let Some(x) = x {
                            met.push((fl.index, &fl.ty, x));
                        }
                    }
                }
                Val::Choice(..) => {
                    let mut cur = Some(v);
                    while let Some(Val::Choice(i, x, fb)) = cur {
                        met.push((wa.fields[*i].index, &wa.fields[*i].ty, x));
                        cur = fb.as_deref();
                    }
                }
                _ => return Err("not a message".into()),
            }
            if rb.choice {
                let mut links = vec![];
                let mut done = false;
                for (index, t, x) in met {
                    if let Some(i) = rb.fields.iter().position(|f| f.index == index) {
                        links.push((i, migrate(a, b, t, &rb.fields[i].ty, x)?));
                        if rb.fields[i].rule != Rule::Opt {
                            done = true;
                            break;
                        }
                    }
                }
                if !done {
                    return Err("no recognized field".into());
                }
                let mut out: Option<Val> = None;
                for (i, v) in links.into_iter().rev() {
                    out = Some(Val::Choice(i, Box::new(v), out.map(Box::new)));
                }
                Ok(out.unwrap())
            } else {
                let mut out = vec![];
                for fl in &rb.fields {
                    match met.iter().find(|m| m.0 == fl.index) {
                        Some((_, t, x)) => out.push(Some(migrate(a, b, t, &fl.ty, x)?)),
                        None if fl.rule == Rule::Req => return Err(format!("missing {}", fl.name.snake())),
                        None => out.push(None),
                    }
                }
                Ok(Val::Struct(out))
            }
        }
        _ => Ok(v.clone()),
    }
}

fn evolved(s: &mut Src, choices: bool) -> Unit {
    let old = gen_set(s, &Opts { max_decls: 5, max_files: 2, unicode: false, ..Opts::default() });
    let new = evolve(s, &old, choices);
    vec![old, new]
}

fn touched(sets: &[Set], t: (usize, usize), seen: &mut Vec<(usize, usize)>) -> bool {
    if seen.contains(&t) {
        return false;
    }
    seen.push(t);
    let (a, b) = (sets[0].decl(t.0, t.1), sets[1].decl(t.0, t.1));
    if a.choice != b.choice || a.fields != b.fields {
        return true;
    }
    fn refs(t: &Ty) -> Option<(usize, usize)> {
        match t {
            Ty::Arr(t) => refs(t),
            Ty::Ref(f, d) => Some((*f, *d)),
            _ => None,
        }
    }
    let next: Vec<_> = a.fields.iter().filter_map(|f| refs(&f.ty)).collect();
    next.into_iter().any(|x| touched(sets, x, seen))
}

fn changed(sets: &[Set], t: (usize, usize)) -> bool {
    (sets[0].inhabited(t.0, t.1) || sets[1].inhabited(t.0, t.1)) && touched(sets, t, &mut vec![])
}

fn c07(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let ty = Ty::Ref(env.ty.0, env.ty.1);
    // The writer's set.
    let mut w = s.size(2);
    if !env.sets[w].inhabited(env.ty.0, env.ty.1) {
        w = 1 - w;
    }
    let r = 1 - w;
    let mut l = fuel(s);
    let v = gen_val(&env.sets[w], &ty, s, &mut l).canon_nan();
    let want = match migrate(&env.sets[w], &env.sets[r], &ty, &ty, &v) {
        Ok(x) => x,
        Err(e) => return fail("harness", format!("the model can't migrate {}: {e}", show(&v))),
    };
    let (b, what) = if s.chance(1, 2) {
        (ts_encode(env, w, &v)?.1, if w == 0 { "older TypeScript writer" } else { "newer TypeScript writer" })
    } else {
        (rust_encode(env, w, &v)?.1, if w == 0 { "older Rust writer" } else { "newer Rust writer" })
    };
    rust_read(env, r, &b, &want, what)?;
    ts_read(env, r, &b, (0, 0), &want, what)?;
    let mut i = info(env, &v, &b);
    i.runs = 2;
    i.nontrivial = i.nontrivial && want != v;
    if want != v {
        i.classes.push("the reader sees something else than what was written");
    }
    i.classes.push(if w == 0 { "older to newer" } else { "newer to older" });
    Ok(i)
}

// ---- C09: tolerance ----

fn c09(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let mut l = fuel(s);
    let v = gen_val(env.set(), &Ty::Ref(env.ty.0, env.ty.1), s, &mut l);
    let want = v.as_in(env.set(), &Ty::Ref(env.ty.0, env.ty.1));
    let reorder = s.chance(2, 3);
    let unknown = s.chance(2, 3);
    let trailing = s.chance(2, 3);
    let breaking = s.chance(1, 3);
    let units = s.chance(1, 2);
    let at = if breaking { Some(s.weighted(&[6, 3, 2, 1, 1, 1])) } else { None };
    let set = env.sets[0].clone();
    let mut e = Enc::new(&set, Some(Perturb { src: s, reorder, unknown, trailing, changes: 0 }));
    e.sized_units = units;
    e.break_at = at;
    let b = e.message(env.ty.0, env.ty.1, &v);
    let changes = e.p.as_ref().map_or(0, |p| p.changes);
    let broken = e.broken;
    let mut i = info(env, &v, &b);
    i.runs = 2;
    match broken {
        None => {
            rust_read(env, 0, &b, &want, "tolerant reading")?;
            ts_read(env, 0, &b, (0, 0), &want, "tolerant reading")?;
            i.nontrivial = i.nontrivial && changes > 0;
            if changes > 0 {
                i.classes.push("rearranged or extended");
            }
        }
        Some(x) => {
            must_reject(env, &b)?;
            if x.in_array {
                i.classes.push("in an element of an array");
            }
            i.classes.push(if x.choice { "no recognized field in a choice" } else { "a required field left out" });
        }
    }
    Ok(i)
}

fn must_reject(env: &mut Env, b: &[u8]) -> Result<(), Failure> {
    let k = env.key(0);
    let bad = |lang: &str, v: &Val| {
        Err(Failure {
            sig: format!("accepted ({lang})"),
            text: format!(
                "the {lang} reader accepted {}, which lacks something required, as {}",
                clip(&hex(b), 600),
                show(v)
            ),
            known: None,
        })
    };
    match env.rust.as_mut().unwrap().decode(&k, b, &Io::default()) {
        Ok(Decoded { result: Ok(v), .. }) => return bad("Rust", &v),
        Ok(_) => {}
        Err(c) => return crash("rust reader", &c),
    }
    let ty = env.ty;
    match env.ts.as_mut().unwrap().decode(&env.sets[0], ty, &k, b, 0, 0) {
        Ok(Ok(v)) => bad("TypeScript", &v),
        Ok(Err(_)) => Ok(()),
        Err(c) => ts_crash("typescript reader", &c),
    }
}

// ---- C10, C11: arbitrary bytes ----

/// Bytes that may or may not be a message.
fn noise(env: &Env, s: &mut Src) -> (Vec<u8>, &'static str) {
    let set = &env.sets[0];
    let t = Ty::Ref(env.ty.0, env.ty.1);
    let decl = set.decl(env.ty.0, env.ty.1);
    let kind = s.weighted(&[6, 3, 1, 1]);
    if kind == 1 || (kind == 0 && !set.inhabited(env.ty.0, env.ty.1)) {
        // Well-formed headers with arbitrary payloads.
        let mut out = vec![];
        for _ in 0..s.range(1, 4) {
            let index = if !decl.fields.is_empty() && s.chance(4, 5) { s.pick(&decl.fields).index } else { s.below(70) };
            out.extend(wire::any_field(s, index));
        }
        return (out, "arbitrary fields");
    }
    if kind == 2 {
        let n = s.size(30);
        return (s.bytes(n), "arbitrary bytes");
    }
    if kind == 3 {
        return (s.bytes(1), "a single byte");
    }
    let mut l = Limits { fuel: *s.pick(&[10, 25, 60]), marks: true };
    let v = gen_val(set, &t, s, &mut l);
    let perturb = s.chance(1, 3);
    let mut e = Enc::new(set, if perturb { Some(Perturb { src: s, reorder: true, unknown: true, trailing: true, changes: 0 }) } else { None });
    let mut b = e.message(env.ty.0, env.ty.1, &v);
    let n = s.range(1, 3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(s.below(256) as u8);
            continue;
        }
        let at = s.size(b.len());
        match s.weighted(&[4, 4, 2, 3, 3, 2, 2, 1]) {
            0 => b[at] ^= 1 << s.below(8),
            1 => b[at] = *s.pick(&[0, 1, 2, 3, 4, 5, 7, 0x10, 0x20, 0x40, 0x80, 0x81, 0xfe, 0xff, 0x7f]),
            2 => b.insert(at, s.below(256) as u8),
            3 => {
                b.remove(at);
            }
            4 => b.truncate(at),
            5 => {
                let n = s.range(1, 6) as usize;
                let end = (at + n).min(b.len());
                let c = b[at..end].to_vec();
                let to = s.size(b.len() + 1);
                b.splice(to..to, c);
            }
            6 => {
                // Another integer.
                let n = crate::value::gen_u64(s);
                let c = wire::varint(n);
                let k = (b[at].trailing_zeros() as usize + 1).min(b.len() - at);
                b.splice(at..at + k, c);
            }
            _ => {
                let n = s.size(4);
                let c = s.bytes(n);
                b.extend(c);
            }
        }
    }
    (b, "a damaged message")
}

fn noise_info(env: &Env, b: &[u8], how: &'static str, class: &'static str) -> Info {
    Info {
        nontrivial: b.len() >= 2,
        hash: hash_str(&format!("{} {:?} {}", env.unit, env.ty, hex(b))),
        classes: vec![how, class],
        runs: 1,
        sample: Some(format!("{} from {} ({how}; {class})", env.type_name(), clip(&hex(b), 300))),
    }
}

fn c10(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let (b, how) = noise(env, s);
    let l = wire::lenient(&env.sets[0], env.ty.0, env.ty.1, &b);
    // This takes seconds each time.
    let run = s.chance(1, 400);
    if l.nested_overrun && !run && env.known.iter().any(|k| k == "skip-past-end") {
        return Ok(Info { classes: vec!["not run: meets the known finding skip-past-end"], ..Info::default() });
    }
    c10_on(env, &b, how)
}

fn c10_on(env: &mut Env, b: &[u8], how: &'static str) -> Result<Info, Failure> {
    let k = env.key(0);
    let set = &env.sets[0];
    let l = wire::lenient(set, env.ty.0, env.ty.1, b);
    if l.units > wire::UNIT_LIMIT {
        return Ok(Info { classes: vec!["not run: too many units"], ..Info::default() });
    }
    let strict = wire::decode(set, env.ty.0, env.ty.1, b);
    let got = match env.rust.as_mut().unwrap().decode(&k, b, &Io::default()) {
        Ok(d) => d.result,
        Err(Crash::Units) => return Ok(noise_info(env, b, how, "too many units")),
        Err(c) => {
            let text = format!("the Rust reader: {c:?} on {}", clip(&hex(b), 900));
            let known = match &c {
                Crash::Livelock if l.unknown_overrun => Some("skip-past-end"),
                Crash::Panic(m) if m.contains("capacity overflow") && l.claim >= 1 << 60 => Some("huge-size-claim"),
                Crash::Died(m) if m.contains("memory allocation of") && l.claim >= 1 << 24 => Some("huge-size-claim"),
                Crash::Died(m) if m.contains("overflowed its stack") && l.chain >= 3000 => Some("long-fallback-chain"),
                _ => None,
            };
            let sig = match &c {
                Crash::Panic(_) => "panic",
                Crash::Livelock => "livelock",
                Crash::Died(_) => "died",
                Crash::Units => "units",
            };
            return Err(Failure { sig: sig.into(), text, known: known.map(str::to_owned) });
        }
    };
    agree(env, b, how, strict, got.map_err(|e| format!("{}: {}", e.0, e.1)), "Rust")
}

fn agree(
    env: &Env,
    b: &[u8],
    how: &'static str,
    strict: Result<Val, Bad>,
    got: Result<Val, String>,
    lang: &str,
) -> Result<Info, Failure> {
    let hexed = clip(&hex(b), 900);
    match (strict, got) {
        (Ok(want), Ok(v)) => {
            if want.canon_nan() != v.canon_nan() {
                return Err(Failure {
                    sig: "misread".into(),
                    text: format!("the {lang} reader made {} of {hexed}; the documented meaning is {}", show(&v), show(&want)),
                    known: if lang == "TypeScript" { lost_marks(&want, &v) } else { None },
                });
            }
            Ok(noise_info(env, b, how, "still a valid message"))
        }
        (Ok(want), Err(e)) => fail(
            "rejected",
            format!("the {lang} reader rejected {hexed} with {e}; the documented meaning is {}", show(&want)),
        ),
        (Err(Bad::Overrun(_)), Ok(v)) => Err(Failure {
            sig: "overrun".into(),
            text: format!("the {lang} reader made {} of {hexed}, where a field or an element is longer than what contains it", show(&v)),
            known: Some("cut-short".to_owned()),
        }),
        (Err(Bad::Malformed), Ok(_)) => Ok(noise_info(env, b, how, "malformed, and read somehow")),
        (Err(Bad::Malformed), Err(_)) => Ok(noise_info(env, b, how, "malformed, and rejected")),
        // TypeScript's decoder replaces what isn't UTF-8.
        (Err(Bad::Utf8), Ok(_)) if lang == "TypeScript" => Ok(noise_info(env, b, how, "not UTF-8")),
        (Err(e), Ok(v)) => Err(Failure {
            sig: format!("accepted {e:?}"),
            text: format!("the {lang} reader made {} of {hexed}, which must be rejected: {e:?}", show(&v)),
            known: None,
        }),
        (Err(_), Err(_)) => Ok(noise_info(env, b, how, "incomplete, and rejected")),
    }
}

fn c11(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let (b, how) = noise(env, s);
    let view = if s.chance(1, 3) { (2, s.size(5)) } else { (0, 0) };
    c11_on(env, &b, how, view)
}

fn c11_on(env: &mut Env, b: &[u8], how: &'static str, view: (usize, usize)) -> Result<Info, Failure> {
    let k = env.key(0);
    let set = &env.sets[0];
    let strict = wire::decode(set, env.ty.0, env.ty.1, b);
    let ty = env.ty;
    let got = match env.ts.as_mut().unwrap().decode(set, ty, &k, b, view.0, view.1) {
        Ok(x) => x,
        Err(TsCrash::Units) => return Ok(noise_info(env, b, how, "too many units")),
        Err(c) => {
            return ts_crash("typescript reader", &c).map_err(|mut f: Failure| {
                f.text = format!("{} on {}", f.text, clip(&hex(b), 900));
                f
            })
        }
    };
    // How much follows the message in its buffer.
    let after = if view.0 == 0 { 0 } else { crate::ts::AFTER };
    if let (Err(Bad::Overrun(n)), Ok(v)) = (&strict, &got) {
        return Err(Failure {
            sig: "overrun".into(),
            text: format!(
                "the TypeScript reader made {} of {}, where a field or an element is longer than what contains it (and ends {n} bytes after the end)",
                show(v),
                clip(&hex(b), 900)
            ),
            known: (*n <= after).then(|| "reads-past-the-end".to_owned()),
        });
    }
    agree(env, b, how, strict, got, "TypeScript")
}

// ---- C24: nothing but the message ----

fn c24(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let (b, how) = noise(env, s);
    let view = (*s.pick(&[1, 2, 3, 4]), s.size(9));
    c24_on(env, &b, how, view)
}

fn c24_on(env: &mut Env, b: &[u8], how: &'static str, view: (usize, usize)) -> Result<Info, Failure> {
    let k = env.key(0);
    let ty = env.ty;
    let past = wire::looks_past(&env.sets[0], ty.0, ty.1, b);
    let read = |env: &mut Env, kind, pad| env.ts.as_mut().unwrap().decode(&env.sets[0], ty, &k, b, kind, pad);
    let mut runs = 0;
    let mut results = vec![];
    // Alone in a buffer, and in the midst of two different ones.
    for (kind, pad) in [(0, 0), view, (view.0, view.1 + 1)] {
        results.push(match read(env, kind, pad) {
            Ok(Ok(v)) => Some(v.canon_nan()),
            Ok(Err(_)) => None,
            Err(TsCrash::Units) => return Ok(noise_info(env, b, how, "too many units")),
            Err(c) => return ts_crash("typescript reader", &c),
        });
        runs += 1;
    }
    let shown = |x: &Option<Val>| x.as_ref().map_or("an error".to_owned(), show);
    for x in &results[1..] {
        if *x != results[0] {
            return Err(Failure {
                sig: "surroundings".into(),
                text: format!(
                    "alone in a buffer, {} is read as {}; within a larger buffer, as {}",
                    clip(&hex(b), 900),
                    shown(&results[0]),
                    shown(x)
                ),
                known: past.then(|| "reads-past-the-end".to_owned()),
            });
        }
    }
    let mut i = noise_info(env, b, how, if results[0].is_some() { "a value" } else { "an error" });
    i.runs = runs;
    Ok(i)
}

// ---- C26: histories of calls ----

/// Whether what is read of the type may be written again.
fn relays(set: &Set, t: &Ty, seen: &mut Vec<(usize, usize)>) -> bool {
    match t {
        Ty::Arr(t) => relays(set, t, seen),
        Ty::Ref(f, d) => {
            if seen.contains(&(*f, *d)) {
                return true;
            }
            seen.push((*f, *d));
            set.decl(*f, *d).fields.iter().all(|x| x.rule != Rule::Asym && relays(set, &x.ty, seen))
        }
        _ => true,
    }
}

fn c26(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    enum Want {
        Bytes(Vec<u8>),
        Value(Val, Option<Vec<u8>>),
        Any,
    }
    let types: Vec<(usize, usize)> = env.set().types().into_iter().filter(|t| env.set().inhabited(t.0, t.1)).collect();
    let mine = env.ty;
    let n = s.range(2, 9);
    let mut steps = vec![];
    let mut wants = vec![];
    let mut text = vec![];
    let mut failing = 0;
    let mut changed = 0;
    for _ in 0..n {
        env.ty = if s.chance(2, 3) { mine } else { *s.pick(&types) };
        let k = env.key(0);
        let t = Ty::Ref(env.ty.0, env.ty.1);
        let set = &env.sets[0];
        let mut l = Limits { fuel: *s.pick(&[8, 20, 60]), marks: false };
        let name = env.type_name();
        match s.weighted(&[3, 4, 3]) {
            0 => {
                let v = gen_val(set, &t, s, &mut l).canon_nan();
                let b = encode_sized_units(set, env.ty.0, env.ty.1, &v);
                let earlier = s.chance(1, 2).then(|| gen_val(set, &t, s, &mut Limits { fuel: 20, marks: false }).canon_nan());
                let how = s.size(3);
                changed += usize::from(earlier.is_some());
                let was = earlier.as_ref().map_or(String::new(), |e| format!(" in place of {}", show(e)));
                text.push(format!("write {name} {}{was}", show(&v)));
                steps.push(obj(vec![
                    ("op", "enc".into()),
                    ("k", k.as_str().into()),
                    ("v", v.to_json()),
                    ("earlier", earlier.map_or(J::Null, |e| e.to_json())),
                    ("how", how.into()),
                ]));
                wants.push((env.ty, Want::Bytes(b)));
                continue;
            }
            1 => {
                let v = gen_val(set, &t, s, &mut l).canon_nan();
                let b = encode_sized_units(set, env.ty.0, env.ty.1, &v);
                let relay = relays(set, &t, &mut vec![]);
                let (view, pad) = (s.size(5), s.size(9));
                text.push(format!("read {name} {}", hex(&b)));
                steps.push(obj(vec![
                    ("op", "dec".into()),
                    ("k", k.as_str().into()),
                    ("hex", hex(&b).into()),
                    ("view", view.into()),
                    ("pad", pad.into()),
                    ("relay", relay.into()),
                ]));
                wants.push((env.ty, Want::Value(v.as_in(set, &t), relay.then_some(b))));
            }
            _ => {
                let (b, _) = noise(env, s);
                text.push(format!("read {name} {}", hex(&b)));
                steps.push(obj(vec![
                    ("op", "dec".into()),
                    ("k", k.as_str().into()),
                    ("hex", hex(&b).into()),
                    ("view", 0_usize.into()),
                    ("pad", 0_usize.into()),
                    ("relay", false.into()),
                ]));
                wants.push((env.ty, Want::Any));
                failing += 1;
            }
        }
    }
    env.ty = mine;
    let text = clip(&text.join("; "), 1500);
    let a = match env.ts.as_mut().unwrap().history(steps) {
        Ok(a) => a,
        Err(c) => {
            return ts_crash("history", &c).map_err(|mut f: Failure| {
                f.text = format!("{} in: {text}", f.text);
                f
            })
        }
    };
    let problems = a.get("problems").map_or(&[][..], |p| p.arr());
    if let Some(p) = problems.first() {
        return fail("interference", format!("{} in: {text}", p.s()));
    }
    let answers = a.get("steps").map_or(&[][..], |p| p.arr());
    if answers.len() != wants.len() {
        return fail("history", format!("odd answer {} to: {text}", clip(&a.text(), 500)));
    }
    for (i, ((ty, want), got)) in wants.iter().zip(answers).enumerate() {
        let fine = match want {
            Want::Any => got.get("throw").is_none() && got.get("shape").is_none(),
            Want::Bytes(b) => {
                got.get("hex").is_some_and(|h| h.s() == hex(b)) && got.get("size").is_some_and(|n| n.n() == b.len() as f64)
            }
            Want::Value(v, relay) => {
                let read = got.get("ok").and_then(|j| Val::from_json(env.set(), &Ty::Ref(ty.0, ty.1), j).ok());
                read.is_some_and(|x| x.canon_nan() == v.canon_nan())
                    && relay.as_ref().is_none_or(|b| got.get("relay").is_some_and(|h| h.s() == hex(b)))
            }
        };
        if !fine {
            return fail("step", format!("step {i} gave {} in: {text}", clip(&got.text(), 500)));
        }
    }
    let mut i = Info {
        nontrivial: n >= 3,
        hash: hash_str(&format!("{} {text}", env.unit)),
        classes: vec![],
        runs: 2 * n,
        sample: Some(text),
    };
    if failing > 0 {
        i.classes.push("with damaged messages");
    }
    if changed > 0 {
        i.classes.push("with a message which is changed in place");
    }
    if wants.iter().any(|w| matches!(w.1, Want::Value(_, Some(_)))) {
        i.classes.push("with a value read and written again");
    }
    Ok(i)
}

// ---- C12: partial and failing input and output ----

fn c12(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let v = value(env, s);
    let want = v.as_in(env.set(), &Ty::Ref(env.ty.0, env.ty.1));
    let k = env.key(0);
    let chunks = |s: &mut Src| -> Vec<usize> {
        match s.below(4) {
            0 => vec![1],
            1 => vec![s.range(1, 9) as usize],
            2 => (0..4).map(|_| s.range(1, 5) as usize).collect(),
            _ => vec![],
        }
    };
    let interrupts = |s: &mut Src| *s.pick(&[0, 0, 2, 3, 5]);
    let out = Io { chunks: chunks(s), interrupts: interrupts(s), ..Io::default() };
    let ex = env.rust.as_mut().unwrap();
    let whole = match ex.encode(&k, &v, &Io::default()) {
        Ok(e) => e.bytes,
        Err(c) => return crash("rust writer", &c),
    };
    let parts = match ex.encode(&k, &v, &out) {
        Ok(e) => e,
        Err(c) => return crash("rust writer", &c),
    };
    if parts.error.is_some() || parts.bytes != whole {
        return fail(
            "short writes",
            format!(
                "a writer that takes pieces of {:?} bytes got {} ({:?}); expected {}",
                out.chunks,
                clip(&hex(&parts.bytes), 600),
                parts.error,
                clip(&hex(&whole), 600)
            ),
        );
    }
    let inp = Io { chunks: chunks(s), interrupts: interrupts(s), ..Io::default() };
    match ex.decode(&k, &whole, &inp) {
        Ok(Decoded { result: Ok(x), consumed, .. }) if x == want && consumed == whole.len() as u64 => {}
        Ok(d) => {
            return fail(
                "short reads",
                format!("read in pieces of {:?} bytes, {} gave {:?}", inp.chunks, clip(&hex(&whole), 600), d.result),
            )
        }
        Err(c) => return crash("rust reader", &c),
    }
    // A reader whose own buffering is interrupted.
    if s.chance(1, 8) {
        let io = Io { chunks: chunks(s), interrupts: s.range(2, 6), direct: true, ..Io::default() };
        buffering_interrupted(env, &whole, &want, &io)?;
    }
    let ex = env.rust.as_mut().unwrap();
    // Faults at every place of short messages, and at some places of long ones.
    let n = whole.len();
    let places: Vec<usize> = if n <= 40 {
        (0..=n).collect()
    } else {
        let mut p: Vec<usize> = (0..20).map(|_| s.size(n + 1)).collect();
        p.extend([0, 1, n - 1, n]);
        p
    };
    let mut runs = 4;
    for at in places {
        let kind = (*s.pick(FAULTS)).to_owned();
        let io = Io {
            chunks: chunks(s),
            fault: Some((at, kind.clone())),
            once: s.chance(1, 2),
            interrupts: interrupts(s),
            direct: false,
        };
        runs += 2;
        match ex.decode(&k, &whole, &io) {
            Ok(Decoded { result: Err((got, text)), .. }) if got == kind && text.contains(crate::exec::FAULT) => {}
            Ok(d) => {
                return fail(
                    "read fault",
                    format!(
                        "reading {} fails with {kind} after {at} of {n} bytes (in pieces of {:?}); the reader returned {:?}",
                        clip(&hex(&whole), 600),
                        io.chunks,
                        d.result
                    ),
                )
            }
            Err(c) => return crash("rust reader with a fault", &c),
        }
        match ex.encode(&k, &v, &io) {
            Ok(e) => {
                let fine = if at >= n {
                    e.error.is_none() && e.bytes == whole
                } else {
                    e.error.as_ref().is_some_and(|x| x.0 == kind && x.1.contains(crate::exec::FAULT)) && e.bytes == whole[..at]
                };
                if !fine {
                    return fail(
                        "write fault",
                        format!(
                            "writing {} fails with {kind} after {at} of {n} bytes; the writer returned {:?} after writing {}",
                            show(&v),
                            e.error,
                            clip(&hex(&e.bytes), 600)
                        ),
                    );
                }
            }
            Err(c) => return crash("rust writer with a fault", &c),
        }
    }
    let mut i = info(env, &v, &whole);
    i.runs = runs;
    if n <= 40 {
        i.classes.push("every place of a fault tried");
    }
    Ok(i)
}

fn buffering_interrupted(env: &mut Env, whole: &[u8], want: &Val, io: &Io) -> Result<(), Failure> {
    let k = env.key(0);
    match env.rust.as_mut().unwrap().decode(&k, whole, io) {
        Ok(Decoded { result: Ok(x), consumed, .. }) if x == *want && consumed == whole.len() as u64 => Ok(()),
        Ok(d) => {
            let known = matches!(&d.result, Err((kind, _)) if kind == "Interrupted");
            Err(Failure {
                sig: "interrupted".into(),
                text: format!(
                    "reading {} while every {}th call to fill or read the buffer is interrupted gave {:?}",
                    clip(&hex(whole), 600),
                    io.interrupts,
                    d.result
                ),
                known: known.then(|| "interrupted-buffering".to_owned()),
            })
        }
        Err(c) => crash("rust reader", &c),
    }
}

// ---- C25: memory ----

/// More than a value of the type takes itself.
fn width(set: &Set, t: &Ty, seen: usize) -> u64 {
    match t {
        Ty::Unit | Ty::Bool => 8,
        Ty::F64 | Ty::U64 | Ty::S64 => 16,
        Ty::Bytes | Ty::Str | Ty::Arr(_) => 32,
        Ty::Ref(f, d) => {
            let fs = set.decl(*f, *d).fields.iter().map(|x| width(set, &x.ty, seen + 1) + 16);
            if set.decl(*f, *d).choice {
                16 + fs.max().unwrap_or(0)
            } else {
                16 + fs.sum::<u64>()
            }
        }
    }
}

fn widest(set: &Set) -> u64 {
    set.types().iter().map(|(f, d)| width(set, &Ty::Ref(*f, *d), 0)).max().unwrap_or(16)
}

fn c25(env: &mut Env, s: &mut Src) -> Result<Info, Failure> {
    let set = &env.sets[0];
    let t = Ty::Ref(env.ty.0, env.ty.1);
    let (b, how) = if s.chance(1, 2) {
        noise(env, s)
    } else {
        let mut l = Limits { fuel: *s.pick(&[50, 500, 4000]), marks: true };
        let v = gen_val(set, &t, s, &mut l);
        (encode(set, env.ty.0, env.ty.1, &v), "a message")
    };
    let l = wire::lenient(set, env.ty.0, env.ty.1, &b);
    if l.units > wire::UNIT_LIMIT || l.unknown_overrun {
        return Ok(Info { classes: vec!["not run: too many units, or a field past the end"], ..Info::default() });
    }
    c25_on(env, &b, how)
}

fn c25_on(env: &mut Env, b: &[u8], how: &'static str) -> Result<Info, Failure> {
    let set = &env.sets[0];
    let l = wire::lenient(set, env.ty.0, env.ty.1, b);
    let k = env.key(0);
    let w = widest(set);
    let bound = 16 * w * (b.len() as u64 + 1) + 4096;
    match env.rust.as_mut().unwrap().survive(&k, b) {
        Ok((peak, _)) => {
            if peak > bound {
                return Err(Failure {
                    sig: "memory".into(),
                    text: format!(
                        "reading {} bytes took {peak} bytes of memory; at most {bound} were expected: {}",
                        b.len(),
                        clip(&hex(b), 600)
                    ),
                    known: (l.claim > b.len() as u64 && peak <= bound + 16 * l.claim).then(|| "huge-size-claim".to_owned()),
                });
            }
            Ok(Info { nontrivial: b.len() >= 16, ..noise_info(env, b, how, if peak > 0 { "allocates" } else { "doesn't allocate" }) })
        }
        // Crashes are the business of another check.
        Err(_) => Ok(Info { classes: vec!["crashed"], ..Info::default() }),
    }
}

/// A set of one file.
fn file(decls: Vec<Decl>) -> Set {
    Set {
        files: vec![crate::model::File {
            dirs: vec![],
            stem: Name::of(&["main"]),
            imports: vec![],
            decls,
            comment: vec![],
        }],
    }
}

fn decl(name: &str, choice: bool, fields: Vec<(&str, Rule, Ty)>) -> Decl {
    Decl {
        name: Name::of(&[name]),
        choice,
        fields: fields
            .into_iter()
            .enumerate()
            .map(|(i, (n, rule, ty))| Field { name: Name::of(&[n]), rule, ty, index: i as u64, comment: vec![] })
            .collect(),
        deleted: vec![],
        comment: vec![],
    }
}

fn unit_arrays() -> Set {
    file(vec![decl("nothings", false, vec![("list", Rule::Req, Ty::Arr(Box::new(Ty::Unit)))])])
}

fn three_units() -> Val {
    Val::Struct(vec![Some(Val::Arr(vec![Val::Unit; 3]))])
}

fn choice_lists() -> Set {
    file(vec![
        decl("color", true, vec![("red", Rule::Req, Ty::Unit), ("blue", Rule::Asym, Ty::Unit)]),
        decl("colors", false, vec![("list", Rule::Req, Ty::Arr(Box::new(Ty::Ref(0, 0))))]),
    ])
}

/// Red, an unknown color, red.
const UNKNOWN_COLOR: &[u8] = &[7, 0x0d, 3, 1, 3, 0x29, 3, 1];

fn option_chain() -> Set {
    file(vec![decl("choice", true, vec![("plain", Rule::Req, Ty::Unit), ("fancy", Rule::Opt, Ty::Unit)])])
}

fn texts() -> Set {
    file(vec![decl("message", false, vec![("text", Rule::Req, Ty::Str), ("numbers", Rule::Opt, Ty::Arr(Box::new(Ty::F64)))])])
}

/// A message with a string of a byte order mark and the letter a.
const MARKED: &[u8] = &[7, 9, 0xef, 0xbb, 0xbf, b'a'];

/// A message with a string of four bytes, of which two are missing.
const CUT: &[u8] = &[7, 9, b'a', b'b'];

fn marked() -> Val {
    Val::Struct(vec![Some(Val::Str("\u{feff}a".into())), None])
}

fn must_reject_in_array(env: &mut Env) -> Result<Info, Failure> {
    let b = UNKNOWN_COLOR;
    must_reject(env, b)?;
    Ok(Info::default())
}

fn witnesses(id: &str) -> Vec<Witness<'static>> {
    let colors = |case| Witness { set: choice_lists(), ty: (0, 1), case };
    let units = |case| Witness { set: unit_arrays(), ty: (0, 0), case };
    let text = |case| Witness { set: texts(), ty: (0, 0), case };
    let chain = |case| Witness { set: option_chain(), ty: (0, 0), case };
    match id {
        "C01" => vec![units(&|e| c01_on(e, &three_units()))],
        "C02" => vec![units(&|e| c02_on(e, &three_units()))],
        "C05" => vec![text(&|e| ts_read(e, 0, MARKED, (0, 0), &marked(), "round trip").map(|()| Info::default()))],
        "C06" => vec![text(&|e| ts_read(e, 0, MARKED, (0, 0), &marked(), "Rust to TypeScript").map(|()| Info::default()))],
        "C09" => vec![colors(&must_reject_in_array)],
        "C10" => vec![
            colors(&|e| c10_on(e, UNKNOWN_COLOR, "a witness")),
            // An unrecognized field of 4 bytes with one byte left.
            text(&|e| c10_on(e, &[0x27, 9, 0], "a witness")),
            text(&|e| c10_on(e, CUT, "a witness")),
            // A string of nearly 2^64 bytes.
            text(&|e| c10_on(e, &[7, 0, 0, 0, 0, 0, 0, 0, 0, 0xf0], "a witness")),
            // A string of 2^40 bytes.
            text(&|e| c10_on(e, &[&[7][..], &wire::varint(1 << 40)].concat(), "a witness")),
            // The same optional field, over and over.
            chain(&|e| c10_on(e, &[vec![9; 100_000], vec![1]].concat(), "a witness")),
        ],
        "C11" => vec![
            text(&|e| c11_on(e, CUT, "a witness", (2, 0))),
            text(&|e| c11_on(e, MARKED, "a witness", (0, 0))), colors(&|e| c11_on(e, UNKNOWN_COLOR, "a witness", (0, 0)))],
        "C12" => vec![text(&|e| {
            let io = Io { interrupts: 2, direct: true, ..Io::default() };
            buffering_interrupted(e, MARKED, &marked(), &io).map(|()| Info::default())
        })],
        "C24" => vec![text(&|e| c24_on(e, CUT, "a witness", (2, 0)))],
        // A string of 32 MiB.
        "C25" => vec![text(&|e| c25_on(e, &[&[7][..], &wire::varint(1 << 25)].concat(), "a witness"))],
        _ => vec![],
    }
}

fn any_type(sets: &[Set], t: (usize, usize)) -> bool {
    let _ = (sets, t);
    true
}

pub fn with_plan(ctx: &Ctx, id: &str, f: &mut dyn FnMut(&Plan)) -> bool {
    let structs = |s: &mut Src| evolved(s, false);
    let choices = |s: &mut Src| evolved(s, true);
    let mut p = match id {
        "C01" => plan(ctx, &one, true, false, &c01),
        "C02" => plan(ctx, &one, false, true, &c02),
        "C03" => plan(ctx, &one, true, false, &c03),
        "C04" => plan(ctx, &one, true, true, &c04),
        "C05" => plan(ctx, &one, false, true, &c05),
        "C06" => plan(ctx, &one, true, true, &c06),
        "C07" => plan(ctx, &structs, true, true, &c07),
        "C08" => plan(ctx, &choices, true, true, &c07),
        "C09" => plan(ctx, &one, true, true, &c09),
        "C10" => plan(ctx, &one, true, false, &c10),
        "C11" => plan(ctx, &one, false, true, &c11),
        "C12" => plan(ctx, &one, true, false, &c12),
        "C26" => plan(ctx, &one, false, true, &c26),
        "C24" => plan(ctx, &one, false, true, &c24),
        "C25" => plan(ctx, &one, true, false, &c25),
        _ => return false,
    };
    p.witnesses = witnesses(id);
    // What needs no Rust compiler is cheap: more sets.
    if !p.rust {
        p.units = if id == "C26" { ctx.n(300, 1500) } else { ctx.n(600, 3000) };
    }
    match id {
        "C07" | "C08" => {
            p.wants = &changed;
        }
        "C10" | "C11" | "C24" => {
            p.wants = &any_type;
            p.cases = ctx.n(150, 800);
        }
        "C12" => p.cases = ctx.n(12, 60),
        "C26" => p.cases = ctx.n(40, 200),
        "C25" => p.cases = ctx.n(40, 200),
        "C01" | "C02" | "C03" | "C05" => p.cases = ctx.n(80, 300),
        _ => {}
    }
    f(&p);
    true
}

pub fn check(ctx: &mut Ctx) -> bool {
    ctx.rule = match ctx.id.as_str() {
        "C10" | "C11" | "C24" | "C25" => "A case is a generated schema set, one of its types, and bytes: a damaged encoding of a generated \
value, arbitrary fields of the type, or arbitrary bytes. Non-trivial: at least two bytes (16 for memory); distinct by schema, type \
and bytes."
            .into(),
        "C26" => "A case is a generated schema set and two to nine calls of functions for its types: writing values, reading \
messages, reading damaged ones. Non-trivial: at least three calls; distinct by schema and calls."
            .into(),
        "C07" | "C08" => "A case is a generated schema set, a version of it with documented safe changes, one of the types affected, \
and a value generated for one version and read with the other. Non-trivial: the value has at least two components and the reader \
sees something else than what was written; distinct by schemas, type and encoding."
            .into(),
        _ => VALUE_RULE.into(),
    };
    let id = ctx.id.clone();
    let c: *mut Ctx = ctx;
    // The plan only reads the tier from the context.
    let tier = Ctx::new(&id, ctx.tier, ctx.seed);
    with_plan(&tier, &id, &mut |p| unsafe { run(&mut *c, p) })
}
