//! Values of schema types, independent of any generated code.

use crate::draw::Src;
use crate::json::{hex, unhex, J};
use crate::model::{Rule, Set, Ty};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Unit,
    Bool(bool),
    /// The bits.
    F64(u64),
    U64(u64),
    S64(i64),
    Bytes(Vec<u8>),
    Str(String),
    Arr(Vec<Val>),
    /// By field position.
    Struct(Vec<Option<Val>>),
    /// Field position, payload, fallback.
    Choice(usize, Box<Val>, Option<Box<Val>>),
}

impl Val {
    pub fn unit(&self) {
        assert!(matches!(self, Val::Unit));
    }
    pub fn bool(&self) -> bool {
        match self {
            Val::Bool(b) => *b,
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn f64(&self) -> f64 {
        match self {
            Val::F64(b) => f64::from_bits(*b),
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            Val::U64(b) => *b,
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn s64(&self) -> i64 {
        match self {
            Val::S64(b) => *b,
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Val::Bytes(b) => b.clone(),
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn str(&self) -> String {
        match self {
            Val::Str(b) => b.clone(),
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[Val] {
        match self {
            Val::Arr(b) => b,
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn st(&self) -> &[Option<Val>] {
        match self {
            Val::Struct(b) => b,
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn ch(&self) -> (usize, &Val, Option<&Val>) {
        match self {
            Val::Choice(i, v, f) => (*i, v, f.as_deref()),
            _ => panic!("glue: {self:?}"),
        }
    }
    pub fn to_json(&self) -> J {
        match self {
            Val::Unit => J::Null,
            Val::Bool(b) => J::Bool(*b),
            Val::F64(b) => J::Str(format!("{b:016x}")),
            Val::U64(n) => J::Str(n.to_string()),
            Val::S64(n) => J::Str(n.to_string()),
            Val::Bytes(b) => J::Str(hex(b)),
            Val::Str(s) => J::Str(s.clone()),
            Val::Arr(a) => {
                if a.len() > 32 && a.iter().all(|x| *x == Val::Unit) {
                    let mut m = BTreeMap::new();
                    m.insert("n".to_owned(), J::from(a.len()));
                    J::Obj(m)
                } else {
                    J::Arr(a.iter().map(Val::to_json).collect())
                }
            }
            Val::Struct(fs) => J::Arr(
                fs.iter()
                    .map(|f| match f {
                        None => J::Num(0.0),
                        Some(v) => J::Arr(vec![v.to_json()]),
                    })
                    .collect(),
            ),
            Val::Choice(..) => {
                // Iterative over the fallback chain, which may be long.
                let mut items = vec![];
                let mut cur = Some(self);
                while let Some(Val::Choice(i, v, f)) = cur {
                    items.push(J::Arr(vec![J::from(*i), v.to_json()]));
                    cur = f.as_deref();
                }
                J::Arr(items)
            }
        }
    }
    pub fn from_json(set: &Set, ty: &Ty, j: &J) -> Result<Val, String> {
        let bad = || format!("unexpected {} for {ty:?}", j.text());
        Ok(match ty {
            Ty::Unit => {
                if *j != J::Null {
                    return Err(bad());
                }
                Val::Unit
            }
            Ty::Bool => match j {
                J::Bool(b) => Val::Bool(*b),
                _ => return Err(bad()),
            },
            Ty::F64 => Val::F64(u64::from_str_radix(j.s(), 16).map_err(|_| bad())?),
            Ty::U64 => Val::U64(j.s().parse().map_err(|_| bad())?),
            Ty::S64 => Val::S64(j.s().parse().map_err(|_| bad())?),
            Ty::Bytes => Val::Bytes(unhex(j.s())),
            Ty::Str => match j {
                J::Str(s) => Val::Str(s.clone()),
                _ => return Err(bad()),
            },
            Ty::Arr(t) => match j {
                J::Obj(_) => Val::Arr(vec![Val::Unit; j.get("n").ok_or_else(bad)?.n() as usize]),
                J::Arr(a) => Val::Arr(a.iter().map(|x| Val::from_json(set, t, x)).collect::<Result<_, _>>()?),
                _ => return Err(bad()),
            },
            Ty::Ref(f, d) => {
                let decl = set.decl(*f, *d);
                let a = match j {
                    J::Arr(a) => a,
                    _ => return Err(bad()),
                };
                if decl.choice {
                    let mut out: Option<Val> = None;
                    for x in a.iter().rev() {
                        let i = x.arr().first().ok_or_else(bad)?.n() as usize;
                        let fl = decl.fields.get(i).ok_or_else(bad)?;
                        let v = Val::from_json(set, &fl.ty, x.arr().get(1).ok_or_else(bad)?)?;
                        out = Some(Val::Choice(i, Box::new(v), out.map(Box::new)));
                    }
                    out.ok_or_else(bad)?
                } else {
                    if a.len() != decl.fields.len() {
                        return Err(bad());
                    }
                    Val::Struct(
                        decl.fields
                            .iter()
                            .zip(a)
                            .map(|(fl, x)| match x {
                                J::Arr(x) if x.len() == 1 => Val::from_json(set, &fl.ty, &x[0]).map(Some),
                                _ => Ok(None),
                            })
                            .collect::<Result<_, _>>()?,
                    )
                }
            }
        })
    }
    /// What a reader of the same schema is documented to see for this written value.
    pub fn as_in(&self, set: &Set, ty: &Ty) -> Val {
        match (self, ty) {
            (Val::Arr(a), Ty::Arr(t)) => Val::Arr(a.iter().map(|x| x.as_in(set, t)).collect()),
            (Val::Struct(fs), Ty::Ref(f, d)) => {
                let decl = set.decl(*f, *d);
                Val::Struct(
                    fs.iter().zip(&decl.fields).map(|(x, fl)| x.as_ref().map(|x| x.as_in(set, &fl.ty))).collect(),
                )
            }
            (Val::Choice(i, v, fb), Ty::Ref(f, d)) => {
                let fl = &set.decl(*f, *d).fields[*i];
                let v = Box::new(v.as_in(set, &fl.ty));
                match fl.rule {
                    Rule::Req | Rule::Asym => Val::Choice(*i, v, None),
                    Rule::Opt => Val::Choice(*i, v, fb.as_ref().map(|x| Box::new(x.as_in(set, ty)))),
                }
            }
            _ => self.clone(),
        }
    }
    /// NaNs made equal.
    pub fn canon_nan(&self) -> Val {
        match self {
            Val::F64(b) if f64::from_bits(*b).is_nan() => Val::F64(0x7ff8_0000_0000_0000),
            Val::Arr(a) => Val::Arr(a.iter().map(Val::canon_nan).collect()),
            Val::Struct(fs) => Val::Struct(fs.iter().map(|x| x.as_ref().map(Val::canon_nan)).collect()),
            Val::Choice(i, v, f) => {
                Val::Choice(*i, Box::new(v.canon_nan()), f.as_ref().map(|x| Box::new(x.canon_nan())))
            }
            v => v.clone(),
        }
    }
    /// Without the byte order marks with which strings start.
    pub fn without_marks(&self) -> Val {
        match self {
            Val::Str(t) => Val::Str(t.strip_prefix('\u{feff}').unwrap_or(t).to_owned()),
            Val::Arr(a) => Val::Arr(a.iter().map(Val::without_marks).collect()),
            Val::Struct(fs) => Val::Struct(fs.iter().map(|x| x.as_ref().map(Val::without_marks)).collect()),
            Val::Choice(i, v, f) => {
                Val::Choice(*i, Box::new(v.without_marks()), f.as_ref().map(|x| Box::new(x.without_marks())))
            }
            v => v.clone(),
        }
    }
    /// Roughly the number of bytes.
    pub fn bulk(&self) -> usize {
        8 + match self {
            Val::Bytes(b) => b.len(),
            Val::Str(b) => b.len(),
            Val::Arr(a) => a.iter().map(Val::bulk).sum(),
            Val::Struct(a) => a.iter().flatten().map(Val::bulk).sum(),
            Val::Choice(_, v, f) => v.bulk() + f.as_ref().map_or(0, |f| f.bulk()),
            _ => 0,
        }
    }
    pub fn weight(&self) -> usize {
        1 + match self {
            Val::Bytes(b) => usize::from(!b.is_empty()),
            Val::Str(b) => usize::from(!b.is_empty()),
            Val::Arr(a) => a.iter().map(Val::weight).sum(),
            Val::Struct(a) => a.iter().flatten().map(Val::weight).sum(),
            Val::Choice(_, v, f) => v.weight() + f.as_ref().map_or(0, |f| f.weight()),
            _ => 0,
        }
    }
}

/// The boundaries of the variable-width integer encoding and of fixed-width encodings.
pub const EDGES: &[u64] = &[
    0,
    1,
    2,
    127,
    128,
    16_511,
    16_512,
    2_113_663,
    2_113_664,
    270_549_119,
    270_549_120,
    34_630_287_487,
    34_630_287_488,
    4_432_676_798_591,
    4_432_676_798_592,
    567_382_630_219_903,
    567_382_630_219_904,
    72_624_976_668_147_839,
    72_624_976_668_147_840,
    u64::MAX - 1,
    u64::MAX,
    1 << 31,
    1 << 32,
    (1 << 53) - 1,
    1 << 53,
    (1 << 53) + 1,
    1 << 62,
    1 << 63,
    (1 << 63) - 1,
];

pub fn gen_u64(s: &mut Src) -> u64 {
    match s.weighted(&[3, 4, 2, 2]) {
        0 => s.below(300),
        1 => {
            let e = *s.pick(EDGES);
            let d = s.below(5);
            e.wrapping_add(d).wrapping_sub(2 * (d & 1))
        }
        2 => {
            let bits = s.range(1, 64);
            let v = s.any();
            if bits == 64 {
                v
            } else {
                v & ((1 << bits) - 1)
            }
        }
        _ => s.any(),
    }
}

pub fn unzig(n: u64) -> i64 {
    ((n >> 1) as i64) ^ -((n & 1) as i64)
}

pub fn zig(n: i64) -> u64 {
    ((n >> 63) ^ (n << 1)) as u64
}

const FLOATS: &[u64] = &[
    0,
    0x3ff0_0000_0000_0000,
    0x8000_0000_0000_0000,
    0x7ff0_0000_0000_0000,
    0xfff0_0000_0000_0000,
    0x7ff8_0000_0000_0000,
    0x0000_0000_0000_0001,
    0x8000_0000_0000_0001,
    0x7fef_ffff_ffff_ffff,
    0x0010_0000_0000_0000,
    0xbff0_0000_0000_0000,
    0x3fb9_9999_9999_999a,
];

pub fn gen_len(s: &mut Src, cap: usize) -> usize {
    let n = match s.weighted(&[8, 3, 2, 1]) {
        0 => s.size(5),
        1 => s.range(5, 11) as usize,
        2 => s.range(11, 40) as usize,
        _ if cap > 20_000 && s.chance(1, 24) => match s.weighted(&[4, 1, 1]) {
            0 => s.range(16_480, 16_540) as usize,
            1 => s.range(32_760, 32_775) as usize,
            _ => s.range(65_520, 65_560) as usize,
        },
        _ => s.range(120, 136) as usize,
    };
    n.min(cap)
}

pub fn gen_str(s: &mut Src, cap: usize, marks: bool) -> String {
    let n = gen_len(s, cap);
    let mode = s.weighted(&[3, 2, 1]);
    let mut out = String::new();
    for i in 0..n {
        if i == 90 && n > 300 {
            // The rest repeats the start.
            let start = out.clone();
            while out.len() < n {
                out.push_str(&start);
            }
            while out.len() > n {
                out.pop();
            }
            break;
        }
        let c = match mode {
            0 => (b'a' + s.below(26) as u8) as char,
            1 => *s.pick(&[
                'a', ' ', '\0', '\n', '"', '\\', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', 'ß', '\u{301}', '世',
                '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}',
                '\u{2028}', '\u{202e}',
            ]),
            _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        };
        if out.is_empty() && c == '\u{feff}' && !marks {
            out.push('z');
        }
        out.push(c);
    }
    out
}

pub struct Limits {
    /// How many more leaves may be made.
    pub fuel: i64,
    /// Whether strings may start with a byte order mark.
    pub marks: bool,
}

pub fn gen_val(set: &Set, ty: &Ty, s: &mut Src, lim: &mut Limits) -> Val {
    lim.fuel -= 1;
    match ty {
        Ty::Unit => Val::Unit,
        Ty::Bool => Val::Bool(s.below(2) == 1),
        Ty::F64 => Val::F64(match s.weighted(&[4, 2, 1]) {
            0 => *s.pick(FLOATS),
            1 => ((s.below(2000) as f64 - 1000.0) / 8.0).to_bits(),
            _ => {
                let b = s.any();
                if f64::from_bits(b).is_nan() {
                    0x7ff8_0000_0000_0000
                } else {
                    b
                }
            }
        }),
        Ty::U64 => Val::U64(gen_u64(s)),
        Ty::S64 => Val::S64(unzig(gen_u64(s))),
        Ty::Bytes => {
            let n = gen_len(s, if lim.fuel > 20 { 100_000 } else { 200 });
            lim.fuel -= (n / 16) as i64;
            let mut v = s.bytes(n.min(300));
            v.resize(n, 0xa7);
            Val::Bytes(v)
        }
        Ty::Str => {
            let v = gen_str(s, if lim.fuel > 20 { 100_000 } else { 200 }, lim.marks);
            lim.fuel -= (v.len() / 16) as i64;
            Val::Str(v)
        }
        Ty::Arr(t) => {
            if !set.ty_inhabited(t) {
                return Val::Arr(vec![]);
            }
            if **t == Ty::Unit {
                let n = match s.weighted(&[4, 2, 1]) {
                    0 => s.size(9),
                    1 => s.range(120, 300) as usize,
                    _ => s.range(16_500, 16_600) as usize,
                };
                return Val::Arr(vec![Val::Unit; n]);
            }
            let cap = lim.fuel.max(0) as usize;
            if cap > 40 && s.chance(1, 100) {
                // Many elements, of few kinds.
                let mut few = Limits { fuel: 6, marks: lim.marks };
                let kinds: Vec<Val> = (0..3).map(|_| gen_val(set, t, s, &mut few)).collect();
                let n = match s.weighted(&[4, 2, 1]) {
                    0 => s.range(2_060, 2_068) as usize,
                    1 => s.range(250, 260) as usize,
                    _ => s.range(16_508, 16_514) as usize,
                };
                if kinds.iter().map(Val::weight).sum::<usize>() < 16 && kinds.iter().all(|k| k.bulk() < 100) {
                    lim.fuel -= 400;
                    return Val::Arr((0..n).map(|i| kinds[i * i % 3].clone()).collect());
                }
            }
            let n = match s.weighted(&[7, 2, 1]) {
                0 => s.size(4),
                1 => s.range(4, 10) as usize,
                _ => s.range(10, 140) as usize,
            };
            let n = n.min(cap);
            let mut v = vec![];
            for _ in 0..n {
                if lim.fuel <= 0 {
                    break;
                }
                v.push(gen_val(set, t, s, lim));
            }
            Val::Arr(v)
        }
        Ty::Ref(f, d) => {
            let decl = set.decl(*f, *d);
            if decl.choice {
                let mut links = vec![];
                let most = if lim.fuel > 40 && s.chance(1, 60) { s.range(10, 60) as usize } else { 5 };
                loop {
                    let allowed: Vec<usize> = (0..decl.fields.len())
                        .filter(|i| {
                            set.ty_inhabited(&decl.fields[*i].ty)
                                && (decl.fields[*i].rule == Rule::Req || (links.len() < most && lim.fuel > 0))
                        })
                        .collect();
                    assert!(!allowed.is_empty(), "uninhabited type generated");
                    let i = *s.pick(&allowed);
                    let v = gen_val(set, &decl.fields[i].ty, s, lim);
                    links.push((i, v));
                    if decl.fields[i].rule == Rule::Req {
                        break;
                    }
                }
                let mut out: Option<Val> = None;
                for (i, v) in links.into_iter().rev() {
                    out = Some(Val::Choice(i, Box::new(v), out.map(Box::new)));
                }
                out.unwrap()
            } else {
                Val::Struct(
                    decl.fields
                        .iter()
                        .map(|fl| {
                            let inh = set.ty_inhabited(&fl.ty);
                            let present = match fl.rule {
                                Rule::Opt => inh && lim.fuel > 0 && s.chance(2, 3),
                                _ => true,
                            };
                            present.then(|| gen_val(set, &fl.ty, s, lim))
                        })
                        .collect(),
                )
            }
        }
    }
}
