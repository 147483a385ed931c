//! A reference encoder and decoder for the binary format, written from the "Binary encoding" section of the README.

use crate::draw::Src;
use crate::model::{Rule, Set, Ty};
use crate::value::{unzig, zig, Val};

pub fn varint(n: u64) -> Vec<u8> {
    // Bijective numeration: the k-byte codes (k < 9) follow those with fewer bytes.
    let mut base: u128 = 0;
    for k in 1..=8u32 {
        let count = 1u128 << (7 * k);
        if u128::from(n) < base + count {
            let v = (u128::from(n) - base) << k | 1 << (k - 1);
            return v.to_le_bytes()[..k as usize].to_vec();
        }
        base += count;
    }
    let mut out = vec![0];
    out.extend_from_slice(&((u128::from(n) - base) as u64).to_le_bytes());
    out
}

/// The value and the number of bytes read.
pub fn unvarint(b: &[u8]) -> Option<(u64, usize)> {
    let first = *b.first()?;
    let k = first.trailing_zeros() as usize + 1;
    if b.len() < k {
        return None;
    }
    let mut base: u128 = 0;
    for j in 1..k {
        base += 1u128 << (7 * j);
    }
    let v = if k == 9 {
        let mut x = [0; 8];
        x.copy_from_slice(&b[1..9]);
        u128::from(u64::from_le_bytes(x))
    } else {
        let mut x = [0; 16];
        x[..k].copy_from_slice(&b[..k]);
        u128::from_le_bytes(x) >> k
    };
    let n = base + v;
    u64::try_from(n).ok().map(|n| (n, k))
}

fn int_payload(n: u64) -> Vec<u8> {
    if n == 0 {
        vec![]
    } else if n >= 567_382_630_219_904 {
        n.to_le_bytes().to_vec()
    } else {
        varint(n)
    }
}

pub fn integer_encoded(ty: &Ty) -> bool {
    match ty {
        Ty::U64 | Ty::S64 | Ty::Bool => true,
        Ty::Arr(t) => **t == Ty::Unit,
        _ => false,
    }
}

pub fn header(index: u64, size: usize, int: bool) -> Vec<u8> {
    let mode = match size {
        0 => 0,
        8 => 1,
        _ if int => 2,
        _ => 3,
    };
    let mut out = varint(index << 2 | mode);
    if mode == 3 {
        out.extend(varint(size as u64));
    }
    out
}

/// What an encoding may do that a reader has to tolerate.
pub struct Perturb<'a> {
    pub src: &'a mut Src,
    /// Put the fields of structs in another order.
    pub reorder: bool,
    /// Add fields which the reader doesn't know.
    pub unknown: bool,
    /// Follow the deciding field of a choice by further fields.
    pub trailing: bool,
    pub changes: usize,
}

pub struct Enc<'a, 'b> {
    pub set: &'a Set,
    pub p: Option<Perturb<'b>>,
    /// Give the size of a field of type `[Unit]` explicitly. The documentation says that it's encoded the same way
    /// as a `U64`, but this is what the tool does; see known_findings.json.
    pub sized_units: bool,
    /// In this message, counting from 0, leave out what the reader requires.
    pub break_at: Option<usize>,
    pub seen: usize,
    pub in_array: usize,
    pub broken: Option<Broken>,
    /// Inside of something that a reader of the same schema doesn't look at.
    pub ignored: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Broken {
    pub choice: bool,
    pub in_array: bool,
}

impl<'a, 'b> Enc<'a, 'b> {
    pub fn new(set: &'a Set, p: Option<Perturb<'b>>) -> Enc<'a, 'b> {
        Enc { set, p, sized_units: false, break_at: None, seen: 0, in_array: 0, broken: None, ignored: 0 }
    }
}

pub fn encode(set: &Set, f: usize, d: usize, v: &Val) -> Vec<u8> {
    Enc::new(set, None).message(f, d, v)
}

pub fn encode_sized_units(set: &Set, f: usize, d: usize, v: &Val) -> Vec<u8> {
    let mut e = Enc::new(set, None);
    e.sized_units = true;
    e.message(f, d, v)
}

impl Enc<'_, '_> {
    /// The payload of a field.
    pub fn field_payload(&mut self, ty: &Ty, v: &Val) -> Vec<u8> {
        match (ty, v) {
            (Ty::Unit, Val::Unit) => vec![],
            (Ty::Bool, Val::Bool(b)) => int_payload(u64::from(*b)),
            (Ty::U64, Val::U64(n)) => int_payload(*n),
            (Ty::S64, Val::S64(n)) => int_payload(zig(*n)),
            (Ty::F64, Val::F64(b)) => {
                if *b == 0 {
                    vec![]
                } else {
                    b.to_le_bytes().to_vec()
                }
            }
            (Ty::Arr(t), Val::Arr(a)) if **t == Ty::Unit => int_payload(a.len() as u64),
            _ => self.body(ty, v),
        }
    }
    /// The encoding of a value other than as a field.
    fn body(&mut self, ty: &Ty, v: &Val) -> Vec<u8> {
        match (ty, v) {
            (Ty::Unit, Val::Unit) => vec![],
            (Ty::Bool, Val::Bool(b)) => varint(u64::from(*b)),
            (Ty::U64, Val::U64(n)) => varint(*n),
            (Ty::S64, Val::S64(n)) => varint(zig(*n)),
            (Ty::F64, Val::F64(b)) => b.to_le_bytes().to_vec(),
            (Ty::Bytes, Val::Bytes(b)) => b.clone(),
            (Ty::Str, Val::Str(s)) => s.as_bytes().to_vec(),
            (Ty::Arr(t), Val::Arr(a)) => match &**t {
                Ty::Unit => varint(a.len() as u64),
                Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool => a.iter().flat_map(|x| self.body(t, x)).collect(),
                _ => {
                    let mut out = vec![];
                    for x in a {
                        self.in_array += 1;
                        let b = self.body(t, x);
                        self.in_array -= 1;
                        out.extend(varint(b.len() as u64));
                        out.extend(b);
                    }
                    out
                }
            },
            (Ty::Ref(f, d), _) => self.message(*f, *d, v),
            _ => panic!("ill-typed value {v:?} for {ty:?}"),
        }
    }
    fn field(&mut self, f: usize, d: usize, i: usize, v: &Val) -> Vec<u8> {
        let fl = &self.set.decl(f, d).fields[i];
        let body = self.field_payload(&fl.ty, v);
        let int = integer_encoded(&fl.ty) && !(self.sized_units && matches!(fl.ty, Ty::Arr(_)));
        let mut out = header(fl.index, body.len(), int);
        out.extend(body);
        out
    }
    fn unknown_fields(&mut self, f: usize, d: usize) -> Vec<u8> {
        let decl = self.set.decl(f, d);
        let mut out = vec![];
        if let Some(p) = &mut self.p {
            if p.unknown {
                while p.src.chance(1, 3) {
                    p.changes += 1;
                    let index = unknown_index(p.src, decl);
                    out.extend(any_field(p.src, index));
                }
            }
        }
        out
    }
    pub fn message(&mut self, f: usize, d: usize, v: &Val) -> Vec<u8> {
        let decl = self.set.decl(f, d);
        let broken = self.break_at == Some(self.seen) && self.ignored == 0;
        self.seen += 1;
        match v {
            Val::Struct(fs) => {
                let mut parts = vec![];
                let victims: Vec<usize> =
                    (0..fs.len()).filter(|i| decl.fields[*i].rule == Rule::Req && fs[*i].is_some()).collect();
                let mut victim = None;
                if broken && !victims.is_empty() {
                    victim = Some(match &mut self.p {
                        Some(p) => *p.src.pick(&victims),
                        None => victims[0],
                    });
                    self.broken = Some(Broken { choice: false, in_array: self.in_array > 0 });
                }
                for (i, x) in fs.iter().enumerate() {
                    if victim == Some(i) {
                        continue;
                    }
                    if let Some(x) = x {
                        parts.push(self.field(f, d, i, x));
                    }
                }
                if let Some(p) = &mut self.p {
                    if p.reorder && parts.len() > 1 {
                        let before = parts.clone();
                        p.src.shuffle(&mut parts);
                        p.changes += usize::from(before != parts);
                    }
                }
                let mut out = self.unknown_fields(f, d);
                for part in parts {
                    out.extend(part);
                    out.extend(self.unknown_fields(f, d));
                }
                out
            }
            Val::Choice(..) => {
                let mut out = vec![];
                let mut cur = Some(v);
                let mut chosen = 0;
                while let Some(Val::Choice(i, x, fb)) = cur {
                    out.extend(self.unknown_fields(f, d));
                    if broken && chosen == 0 && decl.fields[*i].rule != Rule::Opt {
                        self.broken = Some(Broken { choice: true, in_array: self.in_array > 0 });
                        return out;
                    }
                    out.extend(self.field(f, d, *i, x));
                    cur = fb.as_deref();
                    if chosen == 0 && decl.fields[*i].rule != Rule::Opt {
                        chosen = 1;
                        self.ignored += 1;
                    }
                }
                self.ignored -= chosen;
                if let Some(p) = &mut self.p {
                    if p.trailing {
                        while p.src.chance(1, 3) {
                            p.changes += 1;
                            let index = if p.src.chance(1, 2) && !decl.fields.is_empty() {
                                p.src.pick(&decl.fields).index
                            } else {
                                unknown_index(p.src, decl)
                            };
                            out.extend(any_field(p.src, index));
                        }
                    }
                }
                out
            }
            _ => panic!("not a message: {v:?}"),
        }
    }
}

fn unknown_index(s: &mut Src, decl: &crate::model::Decl) -> u64 {
    let known = |i: u64| decl.fields.iter().any(|f| f.index == i);
    let n = (decl.fields.len() + decl.deleted.len()) as u64;
    let i = match s.weighted(&[3, 2, 2, 1, 2]) {
        0 => n + s.below(3),
        // One that would be taken for a known one if only some of its bits counted.
        4 => {
            let k = if decl.fields.is_empty() { 0 } else { s.pick(&decl.fields).index };
            k + *s.pick(&[32, 64, 128, 256, 1 << 13, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 60, 1 << 61])
        }
        1 => {
            if decl.deleted.is_empty() {
                n
            } else {
                *s.pick(&decl.deleted)
            }
        }
        2 => *s.pick(&[31, 32, 4127, 4128, 528_415, 528_416, (1 << 32) - 1, 1 << 60, (1 << 62) - 1]),
        _ => s.any() >> 2,
    };
    if known(i) {
        n
    } else {
        i
    }
}

/// A well-formed field with an arbitrary payload.
pub fn any_field(s: &mut Src, index: u64) -> Vec<u8> {
    match s.below(4) {
        0 => varint(index << 2),
        1 => {
            let mut out = varint(index << 2 | 1);
            out.extend(s.bytes(8));
            out
        }
        2 => {
            let mut out = varint(index << 2 | 2);
            let bits = s.range(1, 48);
            out.extend(varint(s.any() & ((1 << bits) - 1)));
            out
        }
        _ => {
            let mut n = match s.below(3) {
                0 => s.size(20),
                1 => s.range(120, 135) as usize,
                _ => s.range(1, 7) as usize,
            };
            if n == 0 || n == 8 {
                n = 9;
            }
            let mut out = varint(index << 2 | 3);
            out.extend(varint(n as u64));
            out.extend(s.bytes(n));
            out
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// A documented reason to reject: a required field is missing.
    Missing,
    /// A documented reason to reject: nothing in a choice is recognized.
    NoChoice,
    /// The same, in an element of an array.
    NoChoiceInArray,
    /// Not UTF-8.
    Utf8,
    /// Not something a conforming writer produces; readers are only required to stay safe.
    Malformed,
    /// A recognized field or an element of an array is longer than what contains it, and ends this many
    /// bytes after the end of everything.
    Overrun(u64),
}

thread_local! {
    /// Where the bytes end which are being decoded.
    static END: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn overrun(b: &[u8], size: u64) -> Bad {
    let left = END.with(|e| e.get() - b.as_ptr() as usize) as u64;
    Bad::Overrun(size.saturating_sub(left))
}

/// Decode strictly. `Ok` only for messages whose meaning the documentation settles.
pub fn decode(set: &Set, f: usize, d: usize, b: &[u8]) -> Result<Val, Bad> {
    END.with(|e| e.set(b.as_ptr() as usize + b.len()));
    decode_depth(set, f, d, b)
}

/// (index, mode, payload, size); a last field whose size is more than what is left comes with what is left.
pub fn split(b: &[u8]) -> Option<Vec<(u64, u64, &[u8], u64)>> {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        let (tag, k) = unvarint(&b[p..])?;
        p += k;
        let size = match tag & 3 {
            0 => 0,
            1 => 8,
            2 => {
                let first = *b.get(p)?;
                let n = first.trailing_zeros() as u64 + 1;
                if n == 8 {
                    return None;
                }
                n
            }
            _ => {
                let (n, k) = unvarint(&b[p..])?;
                p += k;
                if n == 0 || n == 8 {
                    return None;
                }
                n
            }
        };
        let end = p as u64 + size.min(b.len() as u64 - p as u64);
        out.push((tag >> 2, tag & 3, &b[p..end as usize], size));
        p = end as usize;
    }
    Some(out)
}

fn decode_depth(set: &Set, f: usize, d: usize, b: &[u8]) -> Result<Val, Bad> {
    let decl = set.decl(f, d);
    let parts = split(b).ok_or(Bad::Malformed)?;
    if decl.choice {
        let mut links = vec![];
        let mut done = false;
        for (k, (index, mode, payload, size)) in parts.iter().enumerate() {
            if *size > payload.len() as u64 {
                let long = decl.fields.iter().any(|x| x.index == *index);
                return Err(if long { overrun(payload, *size) } else { Bad::Malformed });
            }
            if let Some(i) = decl.fields.iter().position(|x| x.index == *index) {
                links.push((i, decode_field(set, &decl.fields[i].ty, *mode, payload)?));
                let _ = k;
                if decl.fields[i].rule != Rule::Opt {
                    done = true;
                    break;
                }
            }
        }
        if !done {
            return Err(Bad::NoChoice);
        }
        let mut out: Option<Val> = None;
        for (i, v) in links.into_iter().rev() {
            out = Some(Val::Choice(i, Box::new(v), out.map(Box::new)));
        }
        Ok(out.unwrap())
    } else {
        let mut out: Vec<Option<Val>> = vec![None; decl.fields.len()];
        let mut twice = false;
        for (index, mode, payload, size) in parts {
            if size > payload.len() as u64 {
                let long = decl.fields.iter().any(|x| x.index == index);
                return Err(if long { overrun(payload, size) } else { Bad::Malformed });
            }
            if let Some(i) = decl.fields.iter().position(|x| x.index == index) {
                if out[i].is_some() {
                    twice = true;
                }
                out[i] = Some(decode_field(set, &decl.fields[i].ty, mode, payload)?);
            }
        }
        if twice {
            return Err(Bad::Malformed);
        }
        if decl.fields.iter().zip(&out).any(|(fl, v)| fl.rule == Rule::Req && v.is_none()) {
            return Err(Bad::Missing);
        }
        Ok(Val::Struct(out))
    }
}

fn decode_field(set: &Set, ty: &Ty, mode: u64, b: &[u8]) -> Result<Val, Bad> {
    let int = |b: &[u8]| -> Result<u64, Bad> {
        match (mode, b.len()) {
            (0, _) => Ok(0),
            (1, _) => {
                let n = u64::from_le_bytes(b.try_into().unwrap());
                if n < 567_382_630_219_904 {
                    return Err(Bad::Malformed);
                }
                Ok(n)
            }
            (2, _) => match unvarint(b) {
                Some((n, k)) if k == b.len() && n != 0 && n < 567_382_630_219_904 => Ok(n),
                _ => Err(Bad::Malformed),
            },
            _ => Err(Bad::Malformed),
        }
    };
    // Mode 2 is for integers only.
    if mode == 2 && !integer_encoded(ty) {
        return Err(Bad::Malformed);
    }
    match ty {
        Ty::Unit => {
            if b.is_empty() {
                Ok(Val::Unit)
            } else {
                Err(Bad::Malformed)
            }
        }
        Ty::Bool => match int(b)? {
            0 => Ok(Val::Bool(false)),
            1 => Ok(Val::Bool(true)),
            _ => Err(Bad::Malformed),
        },
        Ty::U64 => Ok(Val::U64(int(b)?)),
        Ty::S64 => Ok(Val::S64(unzig(int(b)?))),
        Ty::F64 => match mode {
            0 => Ok(Val::F64(0)),
            1 => {
                let n = u64::from_le_bytes(b.try_into().unwrap());
                if n == 0 {
                    return Err(Bad::Malformed);
                }
                Ok(Val::F64(n))
            }
            _ => Err(Bad::Malformed),
        },
        Ty::Arr(t) if **t == Ty::Unit => match (mode, unvarint(b)) {
            // As the tool writes it.
            (3, Some((n, k))) if k == b.len() => unit_array(n),
            _ => unit_array(int(b)?),
        },
        _ => decode_body(set, ty, b),
    }
}

/// Larger arrays of units are not built (the documented exception).
pub const UNIT_LIMIT: u64 = 100_000;

fn unit_array(n: u64) -> Result<Val, Bad> {
    if n > UNIT_LIMIT {
        return Err(Bad::Malformed);
    }
    Ok(Val::Arr(vec![Val::Unit; n as usize]))
}

fn decode_body(set: &Set, ty: &Ty, b: &[u8]) -> Result<Val, Bad> {
    match ty {
        Ty::Bytes => Ok(Val::Bytes(b.to_vec())),
        Ty::Str => String::from_utf8(b.to_vec()).map(Val::Str).map_err(|_| Bad::Utf8),
        Ty::Ref(f, d) => decode_depth(set, *f, *d, b),
        Ty::Arr(t) => match &**t {
            Ty::Unit => match unvarint(b) {
                Some((n, k)) if k == b.len() => unit_array(n),
                _ => Err(Bad::Malformed),
            },
            Ty::F64 => {
                if b.len() % 8 != 0 {
                    return Err(Bad::Malformed);
                }
                Ok(Val::Arr(
                    b.chunks(8).map(|c| Val::F64(u64::from_le_bytes(c.try_into().unwrap()))).collect(),
                ))
            }
            Ty::U64 | Ty::S64 | Ty::Bool => {
                let mut out = vec![];
                let mut p = 0;
                while p < b.len() {
                    let (n, k) = unvarint(&b[p..]).ok_or(Bad::Malformed)?;
                    p += k;
                    out.push(match &**t {
                        Ty::U64 => Val::U64(n),
                        Ty::S64 => Val::S64(unzig(n)),
                        _ => match n {
                            0 => Val::Bool(false),
                            1 => Val::Bool(true),
                            _ => return Err(Bad::Malformed),
                        },
                    });
                }
                Ok(Val::Arr(out))
            }
            _ => {
                let mut out = vec![];
                let mut p = 0;
                while p < b.len() {
                    let (n, k) = unvarint(&b[p..]).ok_or(Bad::Malformed)?;
                    p += k;
                    if n > (b.len() - p) as u64 {
                        return Err(overrun(&b[p..], n));
                    }
                    let end = p as u64 + n;
                    out.push(decode_body(set, t, &b[p..end as usize]).map_err(|e| match e {
                        Bad::NoChoice => Bad::NoChoiceInArray,
                        e => e,
                    })?);
                    p = end as usize;
                }
                Ok(Val::Arr(out))
            }
        },
        Ty::Unit | Ty::Bool | Ty::F64 | Ty::U64 | Ty::S64 => Err(Bad::Malformed),
    }
}

// ---- a model of how lenient the generated Rust decoders are, to tell known findings from others ----

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Lenient {
    /// An unrecognized field claims to be longer than what is left.
    pub unknown_overrun: bool,
    /// The same, inside of another message.
    pub nested_overrun: bool,
    /// A string, an array or the like claims to be longer than what is left; the largest such claim.
    pub claim: u64,
    /// The most elements that an array of units claims to have.
    pub units: u64,
    /// The longest chain of recognized optional fields in one choice.
    pub chain: usize,
}

fn lenient_varint(b: &[u8]) -> Option<(u64, usize)> {
    let first = *b.first()?;
    let k = first.trailing_zeros() as usize + 1;
    if b.len() < k {
        return None;
    }
    if let Some(x) = unvarint(b) {
        return Some(x);
    }
    // Out of range: it wraps around.
    let mut x = [0; 8];
    x.copy_from_slice(&b[1..9]);
    Some((u64::from_le_bytes(x).wrapping_add(72_624_976_668_147_840), 9))
}

pub fn lenient(set: &Set, f: usize, d: usize, b: &[u8]) -> Lenient {
    let mut l = Lenient::default();
    lenient_message(set, f, d, b, &mut l, 0);
    l
}

fn lenient_message(set: &Set, f: usize, d: usize, b: &[u8], l: &mut Lenient, depth: usize) {
    let decl = set.decl(f, d);
    let mut p = 0;
    let mut chain = 0;
    loop {
        let Some((tag, k)) = lenient_varint(&b[p..]) else { return };
        p += k;
        let size = match tag & 3 {
            0 => 0,
            1 => 8,
            2 => match b.get(p) {
                None => return,
                Some(x) => u64::from(x.trailing_zeros()) + 1,
            },
            _ => {
                let Some((n, k)) = lenient_varint(&b[p..]) else { return };
                p += k;
                n
            }
        };
        let left = (b.len() - p) as u64;
        let body = &b[p..p + size.min(left) as usize];
        match decl.fields.iter().find(|x| x.index == tag >> 2) {
            None => {
                if size > left {
                    l.unknown_overrun = true;
                    l.nested_overrun |= depth > 0;
                }
                p += body.len();
            }
            Some(fl) => {
                p += lenient_value(set, &fl.ty, size, body, true, l, depth);
                if decl.choice {
                    if fl.rule == Rule::Opt {
                        chain += 1;
                        l.chain = l.chain.max(chain);
                    } else {
                        // The rest is drained.
                        return;
                    }
                }
            }
        }
    }
}

/// How much is consumed.
fn lenient_value(set: &Set, ty: &Ty, size: u64, b: &[u8], field: bool, l: &mut Lenient, depth: usize) -> usize {
    let int = |b: &[u8]| match (field, size) {
        (true, 0) => (0, 0),
        (true, 8) if b.len() == 8 => (u64::from_le_bytes(b.try_into().unwrap()), 8),
        _ => lenient_varint(b).unwrap_or((0, b.len())),
    };
    let claim = |l: &mut Lenient| {
        if size > b.len() as u64 {
            l.claim = l.claim.max(size);
        }
    };
    match ty {
        // The payload isn't even looked at.
        Ty::Unit => 0,
        Ty::Bool | Ty::U64 | Ty::S64 => int(b).1,
        Ty::F64 => b.len().min(8),
        Ty::Bytes | Ty::Str => {
            claim(l);
            b.len()
        }
        Ty::Ref(f, d) => {
            lenient_message(set, *f, *d, b, l, depth + 1);
            b.len()
        }
        Ty::Arr(t) => match &**t {
            Ty::Unit => {
                let (n, k) = int(b);
                l.units = l.units.max(n);
                k
            }
            Ty::F64 => {
                claim(l);
                b.len()
            }
            Ty::Bool | Ty::U64 | Ty::S64 => b.len(),
            _ => {
                let mut p = 0;
                while let Some((n, k)) = lenient_varint(&b[p..]) {
                    p += k;
                    let left = (b.len() - p) as u64;
                    let body = &b[p..p + n.min(left) as usize];
                    p += lenient_value(set, t, n, body, false, l, depth);
                }
                b.len()
            }
        },
    }
}

// ---- a model of how far the generated TypeScript decoders look, to tell a known finding from others ----

enum Stop {
    /// A recognized field or an element of an array claims to be longer than what is left.
    Past,
    /// The message is rejected.
    Thrown,
}

/// Whether a recognized field or an element of an array claims to be longer than what is left.
pub fn looks_past(set: &Set, f: usize, d: usize, b: &[u8]) -> bool {
    matches!(look_message(set, f, d, b), Err(Stop::Past))
}

fn look_message(set: &Set, f: usize, d: usize, b: &[u8]) -> Result<(), Stop> {
    let decl = set.decl(f, d);
    let mut p = 0;
    loop {
        let Some((tag, k)) = lenient_varint(&b[p..]) else { return Ok(()) };
        p += k;
        let size = match tag & 3 {
            0 => 0,
            1 => 8,
            2 => match b.get(p) {
                None => return Ok(()),
                Some(x) => u64::from(x.trailing_zeros()) + 1,
            },
            _ => {
                let Some((n, k)) = lenient_varint(&b[p..]) else { return Ok(()) };
                p += k;
                n
            }
        };
        let left = (b.len() - p) as u64;
        match decl.fields.iter().find(|x| x.index == tag >> 2) {
            None if size > left => return Ok(()),
            None => p += size as usize,
            Some(_) if size > left => return Err(Stop::Past),
            Some(fl) => {
                p += look_value(set, &fl.ty, &b[p..p + size as usize], true)?;
                if decl.choice && fl.rule != Rule::Opt {
                    return Ok(());
                }
            }
        }
    }
}

/// How far it gets.
fn look_value(set: &Set, ty: &Ty, b: &[u8], field: bool) -> Result<usize, Stop> {
    let varint = |b: &[u8]| lenient_varint(b).map(|x| x.1).ok_or(Stop::Thrown);
    match ty {
        Ty::Unit => Ok(0),
        Ty::Bytes | Ty::Str => Ok(b.len()),
        Ty::Ref(f, d) => {
            look_message(set, *f, *d, b)?;
            Ok(b.len())
        }
        Ty::F64 => match b.len() {
            0 => Ok(0),
            1..=7 => Err(Stop::Thrown),
            _ => Ok(8),
        },
        Ty::Arr(t) if matches!(**t, Ty::F64) => Ok(b.len() / 8 * 8),
        Ty::Arr(t) if matches!(**t, Ty::Bool | Ty::U64 | Ty::S64) => {
            let mut p = 0;
            while let Some((_, k)) = lenient_varint(&b[p..]) {
                p += k;
            }
            Ok(p)
        }
        Ty::Arr(t) if **t != Ty::Unit => {
            let mut p = 0;
            while let Some((n, k)) = lenient_varint(&b[p..]) {
                p += k;
                if n > (b.len() - p) as u64 {
                    return Err(Stop::Past);
                }
                p += look_value(set, t, &b[p..p + n as usize], false)?;
            }
            Ok(p)
        }
        // Integers, and arrays of units.
        _ => match b.len() {
            0 if field => Ok(0),
            8 if field => Ok(8),
            _ => varint(b),
        },
    }
}
