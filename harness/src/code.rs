//! The runner of the checks which execute generated code.

use crate::cli::Scratch;
use crate::draw::{mix, shrink, trouble, troubled, Src};
use crate::exec::Exec;
use crate::json::{obj, J};
use crate::model::{Set, Ty};
use crate::report::{Ctx, Failure, Info, Stats};
use crate::rust::{build_group, generate, Generated};
use crate::ts::Ts;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// The sets whose code a case exercises together (one, or an older and a newer version).
pub type Unit = Vec<Set>;

pub struct Env<'a> {
    pub sets: &'a [Set],
    pub keys: &'a [String],
    pub rust: Option<&'a mut Exec>,
    pub ts: Option<&'a mut Ts>,
    /// The type under test.
    pub ty: (usize, usize),
    pub unit: u64,
    /// The names of this property's known findings.
    pub known: &'a [String],
}

impl Env<'_> {
    pub fn set(&self) -> &Set {
        &self.sets[0]
    }
    pub fn key(&self, i: usize) -> String {
        format!("{}/{}/{}", self.keys[i], self.ty.0, self.ty.1)
    }
    pub fn type_name(&self) -> String {
        self.sets[0].decl(self.ty.0, self.ty.1).name.pascal()
    }
}

pub type Case = dyn Fn(&mut Env, &mut Src) -> Result<Info, Failure> + Sync;

pub struct Plan<'a> {
    pub units: usize,
    pub cases: usize,
    pub make: &'a (dyn Fn(&mut Src) -> Unit + Sync),
    pub rust: bool,
    pub ts: bool,
    pub case: &'a Case,
    /// Whether a type is worth exercising.
    pub wants: &'a (dyn Fn(&[Set], (usize, usize)) -> bool + Sync),
    pub known: Vec<String>,
    /// Fixed cases: one for each known finding, at least.
    pub witnesses: Vec<Witness<'a>>,
}

pub struct Witness<'a> {
    pub set: Set,
    pub ty: (usize, usize),
    pub case: &'a (dyn Fn(&mut Env) -> Result<Info, Failure> + Sync),
}

fn witnesses(ctx: &mut Ctx, plan: &Plan, scratch: &Scratch) {
    let results = parallel(plan.witnesses.len(), |i| {
        let w = &plan.witnesses[i];
        let dir = scratch.path().join(format!("w{i}"));
        std::fs::create_dir_all(&dir).expect("directory");
        let mut b = build(&dir, "x", vec![(9_000_000 + i as u64, vec![w.set.clone()])], plan.rust, plan.ts);
        let Some(u) = b.units.first().cloned() else {
            return Err(Failure { sig: "unusable".into(), text: b.dropped.join("\n"), known: None });
        };
        let mut env = Env {
            sets: &u.1,
            keys: &u.2,
            rust: b.exec.as_mut(),
            ts: b.ts.as_mut(),
            ty: w.ty,
            unit: u.0,
            known: &[],
        };
        (w.case)(&mut env)
    });
    for (i, r) in results.into_iter().enumerate() {
        match r {
            Ok(i) => ctx.stats.add(i),
            Err(mut f) => {
                let w = &plan.witnesses[i];
                ctx.stats.evaluations += 1;
                f.text = format!("{}\n{}", f.text, w.set.dump());
                ctx.failed(f, obj(vec![("witness", i.into()), ("schemas", w.set.dump().into())]));
            }
        }
    }
}

pub fn inhabited(sets: &[Set], t: (usize, usize)) -> bool {
    sets[0].inhabited(t.0, t.1)
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}

/// Run jobs 0..n on all processors; the results in order.
pub fn parallel<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..workers().min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        return;
                    }
                    let r = f(i);
                    out.lock().unwrap().push((i, r));
                })
                .expect("thread");
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

struct Found {
    unit: Unit,
    ty: (usize, usize),
    choices: Vec<u64>,
    failure: Failure,
}

struct Outcome {
    stats: Stats,
    found: Vec<Found>,
    known: Vec<String>,
    made: usize,
    dropped: Vec<(Unit, String)>,
}

struct Built {
    units: Vec<(u64, Unit, Vec<String>)>,
    exec: Option<Exec>,
    ts: Option<Ts>,
    dropped: Vec<String>,
}

/// Generate and compile the code of some units.
fn build(dir: &Path, name: &str, units: Vec<(u64, Unit)>, rust: bool, ts: bool) -> Built {
    let mut gens: Vec<Generated> = vec![];
    let mut dropped = vec![];
    let mut keyed: Vec<(u64, Unit, Vec<String>)> = vec![];
    for (n, unit) in units {
        let mut keys = vec![];
        let mut these = vec![];
        let mut bad = None;
        for (i, set) in unit.iter().enumerate() {
            let key = format!("g{n}v{i}");
            match generate(dir, &key, set) {
                Ok(g) => these.push(g),
                Err(r) => bad = Some(format!("unit {n}: the tool: {}: {}", r.how(), r.err())),
            }
            keys.push(key);
        }
        match bad {
            Some(b) => dropped.push(b),
            None => {
                gens.extend(these);
                keyed.push((n, unit, keys));
            }
        }
    }
    let all = keyed.clone();
    let mut exec = None;
    if rust {
        let g = build_group(dir, name, gens);
        gens = g.gens;
        for (k, e) in &g.dropped {
            dropped.push(format!("{k}: {e}"));
            keyed.retain(|u| !u.2.contains(k));
        }
        exec = g.exe.map(|e| Exec::new(&e));
        if exec.is_none() {
            if dropped.is_empty() {
                dropped.extend(all.iter().map(|u| format!("unit {}: no executable", u.0)));
            }
            keyed.clear();
        }
    }
    let mut t = None;
    if ts && !keyed.is_empty() {
        let x = Ts::new(&gens, dir.join(format!("{name}.ts.log")));
        for (k, e) in &x.failed {
            dropped.push(format!("{k}: TypeScript does not load: {e}"));
            keyed.retain(|u| !u.2.contains(k));
        }
        t = Some(x);
    }
    Built { units: keyed, exec, ts: t, dropped }
}

fn attempt(
    plan: &Plan,
    b_exec: &mut Option<Exec>,
    b_ts: &mut Option<Ts>,
    unit: &(u64, Unit, Vec<String>),
    ty: (usize, usize),
    src: &mut Src,
) -> Result<Info, Failure> {
    let mut env = Env {
        sets: &unit.1,
        keys: &unit.2,
        rust: b_exec.as_mut(),
        ts: b_ts.as_mut(),
        ty,
        unit: unit.0,
        known: &plan.known,
    };
    (plan.case)(&mut env, src)
}

pub fn run(ctx: &mut Ctx, plan: &Plan) {
    // Groups of this many units share an executable.
    let per_group = 6.min(plan.units.div_ceil(workers())).max(1);
    let groups = plan.units.div_ceil(per_group);
    let scratch = Scratch::new();
    let known = &plan.known;
    witnesses(ctx, plan, &scratch);
    let base = ctx.seed_for("unit", 0);
    let late = || trouble().is_some_and(|t| t.as_secs() > 60);
    let outcomes = parallel(groups, |g| {
        if late() {
            return Outcome { stats: Stats::default(), found: vec![], known: vec![], made: 0, dropped: vec![] };
        }
        let dir = scratch.path().join(format!("d{g}"));
        std::fs::create_dir_all(&dir).expect("directory");
        let units: Vec<(u64, Unit)> = (g * per_group..((g + 1) * per_group).min(plan.units))
            .map(|i| (i as u64, (plan.make)(&mut Src::random(mix(&[base, i as u64])))))
            .collect();
        let made = units.len();
        let given = units.clone();
        let mut b = build(&dir, "x", units, plan.rust, plan.ts);
        let mut o = Outcome { stats: Stats::default(), found: vec![], known: vec![], made, dropped: vec![] };
        for (n, unit) in given {
            if b.units.iter().all(|u| u.0 != n) {
                // Again, by itself.
                let alone = dir.join(format!("alone{n}"));
                std::fs::create_dir_all(&alone).expect("directory");
                let again = build(&alone, "x", vec![(n, unit.clone())], plan.rust, plan.ts);
                if again.units.is_empty() {
                    troubled();
                    o.dropped.push((unit, again.dropped.join("\n")));
                }
            }
        }
        // One failure of a group is enough.
        let mut failed = false;
        for u in &b.units {
            for ty in u.1[0].types() {
                if failed || late() || !(plan.wants)(&u.1, ty) {
                    continue;
                }
                for c in 0..plan.cases {
                    let seed = mix(&[base, u.0, 77, ty.0 as u64, ty.1 as u64, c as u64]);
                    let mut src = Src::random(seed);
                    match attempt(plan, &mut b.exec, &mut b.ts, u, ty, &mut src) {
                        Ok(i) => o.stats.add(i),
                        Err(f) => {
                            o.stats.evaluations += 1;
                            if let Some(k) = &f.known {
                                if known.contains(k) {
                                    o.known.push(k.clone());
                                    continue;
                                }
                            }
                            // Simplify it, keeping to the same kind of failure.
                            let choices = shrink(src.rec.clone(), 600, |c| {
                                match attempt(plan, &mut b.exec, &mut b.ts, u, ty, &mut Src::replay(c)) {
                                    Err(x) => x.sig == f.sig && x.known == f.known,
                                    Ok(_) => false,
                                }
                            });
                            let failure =
                                match attempt(plan, &mut b.exec, &mut b.ts, u, ty, &mut Src::replay(&choices)) {
                                    Err(x) => x,
                                    Ok(_) => f,
                                };
                            o.found.push(Found { unit: u.1.clone(), ty, choices, failure });
                            failed = true;
                            break;
                        }
                    }
                }
            }
        }
        drop(b.exec);
        drop(b.ts);
        std::fs::remove_dir_all(&dir).ok();
        o
    });
    let mut made = 0;
    let mut dropped = vec![];
    let mut found = vec![];
    for o in outcomes {
        made += o.made;
        dropped.extend(o.dropped);
        ctx.stats.merge(o.stats);
        for k in o.known {
            *ctx.stats.known.entry(k).or_default() += 1;
        }
        found.extend(o.found);
    }
    ctx.stats.count("schema sets", made as u64);
    ctx.stats.count("schema sets left out (their code could not be generated or compiled)", dropped.len() as u64);
    if !dropped.is_empty() {
        // All of them are valid, so that the property holds of none of their values.
        let (unit, text) = smallest(plan, dropped, &scratch);
        ctx.stats.evaluations += 1;
        let f = Failure {
            sig: "unusable".into(),
            text: format!("the code of a valid schema set could not be generated, compiled or loaded: {}", crate::report::clip(&text, 1500)),
            known: None,
        };
        report(ctx, Found { unit, ty: (0, 0), choices: vec![], failure: f });
    }
    if !found.is_empty() {
        ctx.stats.count("schema sets with a violation", found.len() as u64);
        let first = found.remove(0);
        let first = reduce(plan, first, &scratch);
        report(ctx, first);
    }
}

fn report(ctx: &mut Ctx, f: Found) {
    let replay = obj(vec![
        ("sets", J::Arr(f.unit.iter().map(Set::to_json).collect())),
        ("type", format!("{}/{}", f.ty.0, f.ty.1).into()),
        ("choices", J::Arr(f.choices.iter().map(|c| c.to_string().into()).collect())),
        ("schemas", J::Arr(f.unit.iter().map(|s| s.dump().into()).collect())),
    ]);
    let mut failure = f.failure;
    failure.text = format!(
        "{}\n{}",
        failure.text,
        f.unit.iter().map(|s| crate::report::clip(&s.dump(), 1200)).collect::<Vec<_>>().join("\n====\n")
    );
    ctx.failed(failure, replay);
}

fn remap(t: &mut Ty, map: &dyn Fn(usize, usize) -> (usize, usize)) {
    match t {
        Ty::Arr(t) => remap(t, map),
        Ty::Ref(f, d) => {
            let (a, b) = map(*f, *d);
            *f = a;
            *d = b;
        }
        _ => {}
    }
}

fn refers(t: &Ty, x: (usize, usize)) -> bool {
    match t {
        Ty::Arr(t) => refers(t, x),
        Ty::Ref(f, d) => (*f, *d) == x,
        _ => false,
    }
}

fn drop_decl(set: &Set, ty: (usize, usize), x: (usize, usize)) -> Option<(Set, (usize, usize))> {
    if x == ty || set.types().iter().any(|(f, d)| set.decl(*f, *d).fields.iter().any(|fl| refers(&fl.ty, x))) {
        return None;
    }
    let mut s = set.clone();
    s.files[x.0].decls.remove(x.1);
    let map = |f: usize, d: usize| if f == x.0 && d > x.1 { (f, d - 1) } else { (f, d) };
    for file in &mut s.files {
        for d in &mut file.decls {
            for fl in &mut d.fields {
                remap(&mut fl.ty, &map);
            }
        }
    }
    Some((s, map(ty.0, ty.1)))
}

/// Smaller sets, for single-set units.
fn smaller(set: &Set, ty: (usize, usize)) -> Vec<(Set, (usize, usize))> {
    let mut out = vec![];
    // Without everything that the type doesn't need.
    let mut cur = (set.clone(), ty);
    loop {
        let next = cur.0.types().into_iter().find_map(|x| drop_decl(&cur.0, cur.1, x));
        match next {
            Some(n) => cur = n,
            None => break,
        }
    }
    if cur.0 != *set {
        out.push(cur);
    }
    let mut plain = set.clone();
    for f in &mut plain.files {
        f.comment.clear();
        for d in &mut f.decls {
            d.comment.clear();
            for x in &mut d.fields {
                x.comment.clear();
            }
        }
    }
    if plain != *set {
        out.push((plain, ty));
    }
    for (f, d) in set.types() {
        let decl = set.decl(f, d);
        for i in 0..decl.fields.len() {
            let mut s = set.clone();
            let x = s.files[f].decls[d].fields.remove(i);
            s.files[f].decls[d].deleted.push(x.index);
            if s.inhabited(ty.0, ty.1) || !set.inhabited(ty.0, ty.1) {
                out.push((s, ty));
            }
            if let Ty::Arr(t) = &decl.fields[i].ty {
                let mut s = set.clone();
                s.files[f].decls[d].fields[i].ty = (**t).clone();
                if s.inhabited(ty.0, ty.1) {
                    out.push((s, ty));
                }
            }
        }
    }
    out
}

fn reduce(plan: &Plan, first: Found, scratch: &Scratch) -> Found {
    if first.unit.len() != 1 {
        return first;
    }
    let mut best = first;
    let mut left = 64usize;
    let mut round = 0;
    loop {
        if trouble().is_some_and(|t| t.as_secs() > 260) {
            return best;
        }
        let cands: Vec<_> = smaller(&best.unit[0], best.ty).into_iter().take(left).collect();
        let mut better = None;
        for batch in cands.chunks(workers()) {
            left -= batch.len();
            round += 1;
            let results = parallel(batch.len(), |i| {
                let dir = scratch.path().join(format!("r{round}_{i}"));
                std::fs::create_dir_all(&dir).ok()?;
                retry(plan, &dir, &batch[i].0, batch[i].1, &best)
            });
            better = results.into_iter().flatten().next();
            if better.is_some() {
                break;
            }
        }
        match better {
            Some(f) => best = f,
            None => return best,
        }
    }
}

/// Look for the same kind of failure with another set.
fn retry(plan: &Plan, dir: &Path, set: &Set, ty: (usize, usize), best: &Found) -> Option<Found> {
    let mut b = build(dir, "x", vec![(0, vec![set.clone()])], plan.rust, plan.ts);
    let u = b.units.first()?.clone();
    let same = |f: &Failure| f.sig == best.failure.sig && f.known == best.failure.known;
    for c in 0..200 {
        if trouble().is_some_and(|t| t.as_secs() > 260) {
            return None;
        }
        let mut src = if c == 0 { Src::replay(&best.choices) } else { Src::random(mix(&[5, c])) };
        let Err(f) = attempt(plan, &mut b.exec, &mut b.ts, &u, ty, &mut src) else { continue };
        if !same(&f) {
            continue;
        }
        let choices = shrink(src.rec.clone(), 300, |c| {
            attempt(plan, &mut b.exec, &mut b.ts, &u, ty, &mut Src::replay(c)).is_err_and(|x| same(&x))
        });
        let failure = attempt(plan, &mut b.exec, &mut b.ts, &u, ty, &mut Src::replay(&choices)).err().unwrap_or(f);
        return Some(Found { unit: vec![set.clone()], ty, choices, failure });
    }
    None
}

/// The smallest of some units without usable code, simplified.
fn smallest(plan: &Plan, mut units: Vec<(Unit, String)>, scratch: &Scratch) -> (Unit, String) {
    units.sort_by_key(|u| u.0.iter().map(|s| s.dump().len()).sum::<usize>());
    let (unit, text) = units.swap_remove(0);
    let [set] = &unit[..] else { return (unit, text) };
    let mut best = (set.clone(), text);
    let mut left = 80usize;
    let mut round = 0;
    loop {
        if trouble().is_some_and(|t| t.as_secs() > 260) {
            return (vec![best.0], best.1);
        }
        let mut cands = vec![];
        for t in best.0.types() {
            if let Some((s, _)) = drop_decl(&best.0, (usize::MAX, 0), t) {
                cands.push(s);
            }
        }
        let main = best.0.types().first().copied().unwrap_or((0, 0));
        if !best.0.types().is_empty() {
            cands.extend(smaller(&best.0, main).into_iter().map(|x| x.0));
        }
        cands.truncate(left);
        let mut better = None;
        for batch in cands.chunks(workers()) {
            left -= batch.len();
            round += 1;
            let results = parallel(batch.len(), |i| {
                let dir = scratch.path().join(format!("u{round}_{i}"));
                std::fs::create_dir_all(&dir).ok()?;
                let b = build(&dir, "x", vec![(0, vec![batch[i].clone()])], plan.rust, plan.ts);
                std::fs::remove_dir_all(&dir).ok();
                if b.units.is_empty() {
                    Some((batch[i].clone(), b.dropped.join("\n")))
                } else {
                    None
                }
            });
            better = results.into_iter().flatten().next();
            if better.is_some() {
                break;
            }
        }
        match better {
            Some(b) => best = b,
            None => return (vec![best.0], best.1),
        }
    }
}

/// Run one recorded case again.
pub fn replay(plan: &Plan, case: &J) -> Option<Result<Info, Failure>> {
    if let Some(w) = case.get("witness") {
        let w = plan.witnesses.get(w.n() as usize)?;
        let scratch = Scratch::new();
        let mut b = build(scratch.path(), "x", vec![(0, vec![w.set.clone()])], plan.rust, plan.ts);
        let u = b.units.first().cloned()?;
        let mut env = Env {
            sets: &u.1,
            keys: &u.2,
            rust: b.exec.as_mut(),
            ts: b.ts.as_mut(),
            ty: w.ty,
            unit: u.0,
            known: &[],
        };
        return Some((w.case)(&mut env));
    }
    let sets: Vec<Set> = case.get("sets")?.arr().iter().map(Set::from_json).collect();
    let (a, b) = case.get("type")?.s().split_once('/')?;
    let ty = (a.parse().ok()?, b.parse().ok()?);
    let choices: Vec<u64> = case.get("choices")?.arr().iter().filter_map(|c| c.s().parse().ok()).collect();
    let scratch = Scratch::new();
    let mut built = build(scratch.path(), "x", vec![(0, sets)], plan.rust, plan.ts);
    let Some(u) = built.units.first().cloned() else {
        return Some(Err(Failure { sig: "unusable".into(), text: built.dropped.join("\n"), known: None }));
    };
    Some(attempt(plan, &mut built.exec, &mut built.ts, &u, ty, &mut Src::replay(&choices)))
}
