//! Evidence, violations and known findings.

use crate::draw::hash_str;
use crate::json::{obj, J};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn home() -> PathBuf {
    PathBuf::from(std::env::var("VH_HOME").expect("VH_HOME"))
}

/// A failed case.
#[derive(Clone, Debug)]
pub struct Failure {
    /// What kind of failure it is; shrinking keeps to it.
    pub sig: String,
    /// What failed, for a person.
    pub text: String,
    /// If this is one of the known findings, its name.
    pub known: Option<String>,
}

pub fn fail<T>(sig: &str, text: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.to_owned(), text: text.into(), known: None })
}

/// What a passed case was like.
#[derive(Clone, Debug, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub hash: u64,
    pub classes: Vec<&'static str>,
    /// How many executions this case stands for.
    pub runs: u64,
    pub sample: Option<String>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    pub fn add(&mut self, i: Info) {
        self.evaluations += i.runs.max(1);
        for c in i.classes {
            *self.classes.entry(c.to_owned()).or_default() += 1;
        }
        if i.nontrivial && self.distinct.insert(i.hash) && self.samples.len() < 4 {
            if let Some(s) = i.sample {
                self.samples.push(s);
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.notes.extend(o.notes);
    }
    pub fn count(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.to_owned()).or_default() += n;
    }
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub stats: Stats,
    pub violations: Vec<(Failure, J)>,
    pub assumptions: Vec<String>,
    pub rule: String,
    pub level: &'static str,
    pub findings: Vec<J>,
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64) -> Ctx {
        let text = std::fs::read_to_string(home().join("known_findings.json")).unwrap_or_else(|_| "[]".into());
        let findings = J::parse(&text).expect("known_findings.json").arr().to_vec();
        Ctx {
            id: id.to_owned(),
            tier,
            seed,
            start: Instant::now(),
            stats: Stats::default(),
            violations: vec![],
            assumptions: vec![],
            rule: String::new(),
            level: "exploration",
            findings,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// A number of cases: the first for the quick tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn seed_for(&self, what: &str, i: u64) -> u64 {
        crate::draw::mix(&[self.seed, hash_str(&self.id), hash_str(what), i])
    }
    /// The names of this property's known findings.
    pub fn known(&self) -> Vec<String> {
        self.findings
            .iter()
            .filter(|f| f.get("property").map_or("", J::s) == self.id && f.get("status").map_or("", J::s) == "known")
            .filter_map(|f| f.get("finding").map(|x| x.s().to_owned()))
            .collect()
    }
    pub fn is_known(&self, name: &str) -> bool {
        self.findings.iter().any(|f| {
            f.get("status").map_or("", J::s) == "known"
                && f.get("property").map_or("", J::s) == self.id
                && f.get("finding").map_or("", J::s) == name
        })
    }
    /// Report a case of a known finding; it is a violation if the finding isn't listed.
    pub fn failed(&mut self, f: Failure, replay: J) {
        if let Some(k) = &f.known {
            if self.is_known(k) {
                *self.stats.known.entry(k.clone()).or_default() += 1;
                return;
            }
        }
        self.violations.push((f, replay));
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_owned());
    }
    #[allow(dead_code)]
    pub fn note(&mut self, s: String) {
        self.stats.notes.push(s);
    }

    /// Write everything down; the exit code.
    pub fn finish(mut self) -> i32 {
        let dir = home().join("evidence");
        std::fs::create_dir_all(&dir).expect("evidence");
        let wall = self.start.elapsed().as_secs_f64();
        for (k, n) in &self.stats.known.clone() {
            let what = self
                .findings
                .iter()
                .find(|f| {
                    f.get("property").map_or("", J::s) == self.id && f.get("finding").map_or("", J::s) == k
                })
                .and_then(|f| f.get("what"))
                .map_or("", J::s)
                .to_owned();
            println!("KNOWN-FINDING: property={} {k}: {what} ({n} case(s) in this run)", self.id);
        }
        if self.stats.samples.is_empty() {
            self.stats.samples.push("no non-trivial case in this run".into());
        }
        let cov = obj(vec![
            ("evaluations", self.stats.evaluations.into()),
            ("distinct_nontrivial", self.stats.distinct.len().into()),
            ("rule", self.rule.clone().into()),
            ("samples", J::Arr(self.stats.samples.iter().map(|s| clip(s, 1500).into()).collect())),
            (
                "classes",
                J::Obj(self.stats.classes.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect()),
            ),
            (
                "known_findings",
                J::Obj(self.stats.known.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect()),
            ),
            ("notes", J::Arr(self.stats.notes.iter().take(40).map(|s| clip(s, 600).into()).collect())),
        ]);
        let ev = obj(vec![
            ("property", self.id.as_str().into()),
            ("tier", if self.quick() { "quick" } else { "thorough" }.into()),
            ("seed", J::Num((self.seed & ((1 << 53) - 1)) as f64)),
            ("level", self.level.into()),
            ("coverage", cov),
            ("assumptions", J::Arr(self.assumptions.iter().map(|s| s.as_str().into()).collect())),
            ("wall_s", J::Num((wall * 1000.0).round() / 1000.0)),
            ("violations", self.violations.len().into()),
        ]);
        std::fs::write(dir.join(format!("{}.json", self.id)), ev.pretty()).expect("evidence");
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {wall:.1} s",
            self.id,
            self.stats.evaluations,
            self.stats.distinct.len(),
            self.violations.len()
        );
        if self.violations.is_empty() {
            return 0;
        }
        let rdir = home().join("replays");
        std::fs::create_dir_all(&rdir).expect("replays");
        for (i, (f, replay)) in self.violations.iter().enumerate().take(3) {
            let path = rdir.join(format!("{}-{i}.json", self.id));
            let j = obj(vec![
                ("check", self.id.as_str().into()),
                ("seed", J::Str(self.seed.to_string())),
                ("kind", f.sig.as_str().into()),
                ("what", f.text.as_str().into()),
                ("case", replay.clone()),
            ]);
            std::fs::write(&path, j.pretty()).expect("replay");
            println!("{}: {}\n{}", self.id, f.sig, clip(&f.text, 3000));
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        1
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}
