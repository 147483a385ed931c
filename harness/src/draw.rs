//! The generation and shrinking engine. Every random choice of every check goes through a `Src`, which records
//! the choices made; a case is a pure function of its recorded choices, so a failing case is shrunk by simplifying
//! the recording and replayed from it.

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF0u64;
    for p in parts {
        let mut r = Rng::new(h ^ p.wrapping_mul(0xA24B_AED4_963E_E407));
        h = r.next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.as_bytes() {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub struct Src {
    given: Vec<u64>,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { given: vec![], rng: Some(Rng::new(seed)), rec: vec![] }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { given: choices.to_vec(), rng: None, rec: vec![] }
    }
    /// A number in [0, n). 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let i = self.rec.len();
        let v = if let Some(v) = self.given.get(i) {
            (*v).min(n - 1)
        } else if let Some(r) = &mut self.rng {
            ((u128::from(r.next()) * u128::from(n)) >> 64) as u64
        } else {
            0
        };
        self.rec.push(v);
        v
    }
    pub fn any(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn size(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.size(xs.len());
        &xs[i]
    }
    /// Index into a table of weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // 0 keeps the order.
            let j = i - self.size(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

/// When the first failure was found.
static TROUBLE: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();

pub fn troubled() {
    TROUBLE.get_or_init(std::time::Instant::now);
}

/// For how long there have been failures. What remains of a search is left out after a while, since failing cases may
/// take long.
pub fn trouble() -> Option<std::time::Duration> {
    TROUBLE.get().map(std::time::Instant::elapsed)
}

/// Shrink a recording. `fails` says whether a candidate still fails (in the same way). The work is bounded by
/// `budget` calls, and by time.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let begun = std::time::Instant::now();
    let trouble = *TROUBLE.get_or_init(|| begun);
    let mut best = start;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 || begun.elapsed().as_secs() > 60 || trouble.elapsed().as_secs() > 200 {
                return best;
            }
            if cand == best {
                false
            } else {
                left -= 1;
                if fails(&cand) {
                    best = cand;
                    true
                } else {
                    false
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // Drop chunks, from the end.
        let mut chunk = (best.len() / 2).max(1);
        while chunk >= 1 {
            let mut end = best.len();
            while end > 0 {
                let start = end.saturating_sub(chunk);
                let mut c = best.clone();
                if end <= c.len() {
                    c.drain(start..end);
                    attempt!(c);
                }
                end = start.min(best.len());
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Zero chunks.
        let mut chunk = (best.len() / 2).max(1);
        while chunk >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + chunk).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Lower individual choices.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut lo = 0;
                let mut hi = best[i];
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt!(c) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
