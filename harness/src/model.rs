//! The reference model of the byte format: types, values, and a boring
//! encoder and decoder that share nothing with the library under test.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Unit,
    Bool,
    /// Unsigned and signed integers of the given width in bytes.
    UInt(u32),
    Int(u32),
    Usize,
    Isize,
    F32,
    F64,
    Char,
    NonZero(Box<Ty>),
    Opt(Box<Ty>),
    Res(Box<Ty>, Box<Ty>),
    Bound(Box<Ty>),
    Arr(Box<Ty>, usize),
    /// Counted sequence; the capacity is set for sized slices.
    Seq(Box<Ty>, Option<usize>),
    Str(Option<usize>),
    CStr,
    /// Things in order, all with one error type: tuples, ranges.
    Tup(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    RefCell(Box<Ty>),
    Dur,
    Time,
    V4,
    V6,
    Ip,
    Sock4,
    Sock6,
    Sock,
    /// Derived struct and enumeration.
    Struct(Vec<Ty>),
    Enum(Box<Ty>, Vec<(i128, Vec<Ty>)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Unit,
    B(bool),
    U(u128),
    I(i128),
    /// Float, by its bits.
    F(u64),
    C(char),
    S(String),
    Z(Vec<u8>),
    Opt(Option<Box<Val>>),
    Ok(Box<Val>),
    Err(Box<Val>),
    L(Vec<Val>),
    /// Enumeration: index of the variant (not the discriminant) and fields.
    Var(usize, Vec<Val>),
    Dur(u64, u32),
    /// Nanoseconds relative to the epoch.
    T(i128),
}

pub fn opt(v: Option<Val>) -> Val { Val::Opt(v.map(Box::new)) }

/// Normalised errors, with the nesting that the public types have.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RefErr {
    Usize(u128),
    Isize(i128),
    Char(u32),
    Utf8(u8, usize),
    Utf16(u16, usize),
    Nul(usize),
    Zero,
    Len { cap: usize, len: usize },
    Time(i64),
    Borrow,
    BadLen(Box<RefErr>),
    BadItem(Box<RefErr>),
    Item(usize, Box<RefErr>),
    /// Discriminant that could not be encoded.
    BadDisc(Box<RefErr>),
    /// Unassigned discriminant: its value, and the same zero-extended from
    /// the width that its type has in memory.
    Disc(i128, u128),
    Field(Box<RefErr>),
    CellValue(Box<RefErr>),
    /// The generic error, with a leaf or `GenDisc`.
    Gen(Box<RefErr>),
    GenDisc(u128),
    /// StringError around a leaf.
    Str(Box<RefErr>),
    /// The model only knows that the sequence must be refused.
    Refuse,
    Never,
}

impl RefErr {
    /// What the generic error must make of this error.
    pub fn generic(self) -> RefErr {
        RefErr::Gen(Box::new(self.leaf()))
    }
    pub fn leaf(self) -> RefErr {
        match self {
            RefErr::Disc(_, wide) => RefErr::GenDisc(wide),
            RefErr::BadLen(e) | RefErr::BadItem(e) | RefErr::Item(_, e) | RefErr::BadDisc(e)
            | RefErr::Field(e) | RefErr::CellValue(e) | RefErr::Gen(e) => e.leaf(),
            e => e,
        }
    }
}

fn bx(e: RefErr) -> Box<RefErr> { Box::new(e) }
fn item(i: usize, e: RefErr) -> RefErr { RefErr::BadItem(bx(RefErr::Item(i, bx(e)))) }

fn put(out: &mut Vec<u8>, v: u128, n: u32) { out.extend_from_slice(&v.to_le_bytes()[..n as usize]); }

pub fn enc_len(n: usize, out: &mut Vec<u8>) -> Result<(), RefErr> {
    if n > 65535 { return Err(RefErr::BadLen(bx(RefErr::Usize(n as u128)))) }
    put(out, n as u128, 2);
    Ok(())
}

/// The documented encoding of a value.
pub fn encode(ty: &Ty, v: &Val, out: &mut Vec<u8>) -> Result<(), RefErr> {
    match (ty, v) {
        (Ty::Unit, Val::Unit) => {}
        (Ty::Bool, Val::B(b)) => out.push(*b as u8),
        (Ty::UInt(n), Val::U(x)) => put(out, *x, *n),
        (Ty::Int(n), Val::I(x)) => put(out, *x as u128, *n),
        (Ty::Usize, Val::U(x)) => {
            if *x > 65535 { return Err(RefErr::Usize(*x)) }
            put(out, *x, 2)
        }
        (Ty::Isize, Val::I(x)) => {
            if *x < -32768 || *x > 32767 { return Err(RefErr::Isize(*x)) }
            put(out, *x as u128, 2)
        }
        (Ty::F32, Val::F(b)) => put(out, *b as u128, 4),
        (Ty::F64, Val::F(b)) => put(out, *b as u128, 8),
        (Ty::Char, Val::C(c)) => put(out, *c as u128, 4),
        (Ty::NonZero(t), v) => encode(t, v, out)?,
        (Ty::Opt(_), Val::Opt(None)) => out.push(0),
        (Ty::Opt(t), Val::Opt(Some(v))) => { out.push(1); encode(t, v, out)? }
        (Ty::Res(t, _), Val::Ok(v)) => { out.push(0); encode(t, v, out)? }
        (Ty::Res(_, e), Val::Err(v)) => { out.push(1); encode(e, v, out)? }
        (Ty::Bound(t), Val::Var(i, f)) => {
            out.push(*i as u8);
            for v in f { encode(t, v, out).map_err(|e| RefErr::Field(bx(e)))? }
        }
        (Ty::Arr(t, n), Val::L(l)) => {
            assert_eq!(l.len(), *n);
            for (i, v) in l.iter().enumerate() { encode(t, v, out).map_err(|e| item(i, e))? }
        }
        (Ty::Seq(t, _), Val::L(l)) => {
            enc_len(l.len(), out)?;
            for (i, v) in l.iter().enumerate() { encode(t, v, out).map_err(|e| item(i, e))? }
        }
        (Ty::Str(_), Val::S(s)) => { enc_len(s.len(), out)?; out.extend_from_slice(s.as_bytes()) }
        (Ty::CStr, Val::Z(s)) => { enc_len(s.len(), out)?; out.extend_from_slice(s) }
        (Ty::Tup(ts), Val::L(l)) => {
            assert_eq!(ts.len(), l.len());
            for (t, v) in ts.iter().zip(l) { encode(t, v, out)? }
        }
        (Ty::Map(k, w), Val::L(l)) => {
            enc_len(l.len(), out)?;
            for (i, kv) in l.iter().enumerate() {
                let Val::L(kv) = kv else { panic!() };
                encode(k, &kv[0], out).map_err(|e| item(i, e))?;
                encode(w, &kv[1], out).map_err(|e| item(i, e))?;
            }
        }
        (Ty::Set(t), Val::L(l)) => {
            enc_len(l.len(), out)?;
            for (i, v) in l.iter().enumerate() { encode(t, v, out).map_err(|e| item(i, e))? }
        }
        (Ty::RefCell(t), v) => encode(t, v, out).map_err(|e| RefErr::CellValue(bx(e)))?,
        (Ty::Dur, Val::Dur(s, n)) => { put(out, *s as u128, 8); put(out, *n as u128, 4) }
        (Ty::Time, Val::T(ns)) => {
            // Division truncates towards zero, i.e. the epoch.
            put(out, (*ns / 1_000_000_000) as i64 as u64 as u128, 8)
        }
        (Ty::V4, Val::U(b)) => put(out, *b, 4),
        (Ty::V6, Val::U(b)) => put(out, *b, 16),
        (Ty::Ip, Val::Var(i, f)) => {
            out.push([4, 6][*i]);
            encode(&[Ty::V4, Ty::V6][*i], &f[0], out)?
        }
        (Ty::Sock4, Val::L(l)) => { encode(&Ty::V4, &l[0], out)?; encode(&Ty::UInt(2), &l[1], out)? }
        (Ty::Sock6, Val::L(l)) => {
            encode(&Ty::V6, &l[0], out)?;
            encode(&Ty::UInt(2), &l[1], out)?;
            encode(&Ty::UInt(4), &l[2], out)?;
            encode(&Ty::UInt(4), &l[3], out)?
        }
        (Ty::Sock, Val::Var(i, f)) => {
            out.push([4, 6][*i]);
            encode(&[Ty::Sock4, Ty::Sock6][*i], &f[0], out)?
        }
        (Ty::Struct(ts), Val::L(l)) => {
            assert_eq!(ts.len(), l.len());
            for (t, v) in ts.iter().zip(l) { encode(t, v, out).map_err(RefErr::generic)? }
        }
        (Ty::Enum(repr, vs), Val::Var(i, l)) => {
            let (d, ts) = &vs[*i];
            encode(repr, &int_val(repr, *d), out).map_err(|e| RefErr::BadDisc(bx(e)))?;
            for (t, v) in ts.iter().zip(l) { encode(t, v, out).map_err(|e| RefErr::Field(bx(e.generic())))? }
        }
        (t, v) => panic!("model: {v:?} is not a {t:?}"),
    }
    Ok(())
}

pub fn int_val(t: &Ty, d: i128) -> Val {
    match t {
        Ty::UInt(_) | Ty::Usize => Val::U(d as u128),
        Ty::Int(_) | Ty::Isize => Val::I(d),
        _ => panic!("not a representation: {t:?}"),
    }
}

/// The width of a discriminant type in memory, for zero-extension.
pub fn zero_extend(t: &Ty, d: i128) -> u128 {
    let n = match t { Ty::UInt(n) | Ty::Int(n) => *n, Ty::Usize | Ty::Isize => 8, _ => panic!() };
    if n == 16 { d as u128 } else { d as u128 & ((1u128 << (8 * n)) - 1) }
}

/// Where a decoder gets bytes from: data, or an explorer that makes them up.
pub trait Source {
    fn bytes(&mut self, n: usize, role: Role) -> Option<Vec<u8>>;
}
/// What the requested bytes are for, so that an explorer can offer the
/// interesting alternatives.
#[derive(Clone, Debug)]
pub enum Role {
    /// Plain data of this type.
    Data(Ty),
    Bool,
    /// Element count, with the capacity if there is one.
    Count(Option<usize>),
    /// Contents of a string of the requested length.
    Utf8,
    CStr,
    Char,
    NonZero,
    /// Discriminant of the given type with the assigned values.
    Disc(Ty, Vec<i128>),
    Secs,
    Nanos,
}

pub struct Bytes<'a> { pub data: &'a [u8], pub pos: usize }
impl<'a> Bytes<'a> {
    pub fn new(data: &'a [u8]) -> Self { Bytes { data, pos: 0 } }
}
impl Source for Bytes<'_> {
    fn bytes(&mut self, n: usize, _: Role) -> Option<Vec<u8>> {
        if self.data.len() - self.pos < n { return None }
        let r = self.data[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Some(r)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// The input ended too early.
    Short,
    Err(RefErr),
    /// A fixed capacity was exceeded and the input ended too early as well:
    /// either may be noticed first.
    ShortOrErr(RefErr),
}
impl From<RefErr> for Fail { fn from(e: RefErr) -> Self { Fail::Err(e) } }
impl Fail {
    fn map(self, f: impl FnOnce(RefErr) -> RefErr) -> Fail {
        match self { Fail::Short => Fail::Short, Fail::Err(e) => Fail::Err(f(e)), Fail::ShortOrErr(e) => Fail::ShortOrErr(f(e)) }
    }
}

fn le(b: &[u8]) -> u128 {
    let mut v = 0u128;
    for (i, c) in b.iter().enumerate() { v |= (*c as u128) << (8 * i) }
    v
}
fn sext(v: u128, n: u32) -> i128 {
    let sh = 128 - 8 * n;
    ((v << sh) as i128) >> sh
}

fn get(s: &mut dyn Source, n: u32, r: Role) -> Result<u128, Fail> {
    s.bytes(n as usize, r).map(|b| le(&b)).ok_or(Fail::Short)
}

/// First index at which `b` stops being UTF-8: the Unicode standard's table of
/// well-formed byte sequences (Table 3-7), written out.
pub fn utf8_valid_up_to(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() {
        let at = |k: usize| b.get(i + k).copied();
        let cont = |k: usize, lo: u8, hi: u8| at(k).is_some_and(|c| c >= lo && c <= hi);
        let n = match b[i] {
            0x00..=0x7F => 1,
            0xC2..=0xDF if cont(1, 0x80, 0xBF) => 2,
            0xE0 if cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xED if cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) => 3,
            0xF0 if cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF1..=0xF3 if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF4 if cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            _ => return Some(i),
        };
        i += n;
    }
    None
}

/// The documented decoding: exactly the valid sequences, with the errors.
pub fn decode(ty: &Ty, s: &mut dyn Source) -> Result<Val, Fail> {
    Ok(match ty {
        Ty::Unit => Val::Unit,
        Ty::Bool => Val::B(get(s, 1, Role::Bool)? != 0),
        Ty::UInt(n) => Val::U(get(s, *n, Role::Data(ty.clone()))?),
        Ty::Int(n) => Val::I(sext(get(s, *n, Role::Data(ty.clone()))?, *n)),
        Ty::Usize => Val::U(get(s, 2, Role::Data(ty.clone()))?),
        Ty::Isize => Val::I(sext(get(s, 2, Role::Data(ty.clone()))?, 2)),
        Ty::F32 => Val::F(get(s, 4, Role::Data(ty.clone()))? as u64),
        Ty::F64 => Val::F(get(s, 8, Role::Data(ty.clone()))? as u64),
        Ty::Char => {
            let c = get(s, 4, Role::Char)? as u32;
            if c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF) { return Err(RefErr::Char(c).into()) }
            Val::C(char::from_u32(c).unwrap())
        }
        Ty::NonZero(t) => {
            let (n, signed) = match **t {
                Ty::UInt(n) => (n, false), Ty::Int(n) => (n, true),
                Ty::Usize => (2, false), Ty::Isize => (2, true), _ => panic!(),
            };
            let v = get(s, n, Role::NonZero)?;
            if v == 0 { return Err(RefErr::Zero.into()) }
            if signed { Val::I(sext(v, n)) } else { Val::U(v) }
        }
        Ty::Opt(t) => opt(if get(s, 1, Role::Bool)? != 0 { Some(decode(t, s)?) } else { None }),
        Ty::Res(t, e) => {
            let f = |e: Fail| e.map(|e| RefErr::Field(bx(e)));
            if get(s, 1, Role::Bool)? != 0 { Val::Err(Box::new(decode(e, s).map_err(f)?)) } else { Val::Ok(Box::new(decode(t, s).map_err(f)?)) }
        }
        Ty::Bound(t) => {
            let d = get(s, 1, Role::Disc(Ty::UInt(1), vec![0, 1, 2]))?;
            match d {
                0 | 1 => Val::Var(d as usize, vec![decode(t, s).map_err(|e| e.map(|e| RefErr::Field(bx(e))))?]),
                2 => Val::Var(2, vec![]),
                d => return Err(RefErr::Disc(d as i128, d).into()),
            }
        }
        Ty::Arr(t, n) => Val::L(items(t, *n, s)?),
        Ty::Seq(t, cap) => {
            let n = get(s, 2, Role::Count(*cap))? as usize;
            if let Some(cap) = cap {
                if n > *cap { return Err(RefErr::BadLen(bx(RefErr::Len { cap: *cap, len: n })).into()) }
            }
            Val::L(items(t, n, s)?)
        }
        Ty::Str(cap) => {
            let n = get(s, 2, Role::Count(*cap))? as usize;
            let over = cap.filter(|c| n > *c).map(|c| RefErr::BadLen(bx(RefErr::Len { cap: c, len: n })));
            let Some(b) = s.bytes(n, Role::Utf8) else {
                return Err(over.map_or(Fail::Short, Fail::ShortOrErr));
            };
            if let Some(e) = over { return Err(e.into()) }
            if let Some(i) = utf8_valid_up_to(&b) { return Err(RefErr::BadItem(bx(RefErr::Utf8(b[i], i))).into()) }
            Val::S(String::from_utf8(b).expect("model: UTF-8 table disagrees with the standard library"))
        }
        Ty::CStr => {
            let n = get(s, 2, Role::Count(None))? as usize;
            let b = s.bytes(n, Role::CStr).ok_or(Fail::Short)?;
            if let Some(i) = b.iter().position(|c| *c == 0) { return Err(RefErr::Nul(i).into()) }
            Val::Z(b)
        }
        Ty::Tup(ts) => Val::L(ts.iter().map(|t| decode(t, s)).collect::<Result<_, _>>()?),
        Ty::Map(k, w) => {
            let n = get(s, 2, Role::Count(None))? as usize;
            let mut l: Vec<(Val, Val)> = Vec::new();
            let mut at = std::collections::HashMap::new();
            for i in 0..n {
                let k = decode(k, s).map_err(|e| e.map(|e| item(i, e)))?;
                let w = decode(w, s).map_err(|e| e.map(|e| item(i, e)))?;
                // A later value replaces an earlier one of the same key.
                if let Some(i) = at.get(&k) { let x: &mut (Val, Val) = &mut l[*i]; x.1 = w } else { at.insert(k.clone(), l.len()); l.push((k, w)) }
            }
            Val::L(l.into_iter().map(|(k, w)| Val::L(vec![k, w])).collect())
        }
        Ty::Set(t) => {
            let n = get(s, 2, Role::Count(None))? as usize;
            let mut l = Vec::new();
            let mut seen = std::collections::HashSet::new();
            for v in items(t, n, s)? { if seen.insert(v.clone()) { l.push(v) } }
            Val::L(l)
        }
        Ty::RefCell(t) => decode(t, s)?,
        Ty::Dur => {
            let secs = get(s, 8, Role::Secs)? as u64;
            let nanos = get(s, 4, Role::Nanos)? as u32;
            match secs.checked_add((nanos / 1_000_000_000) as u64) {
                Some(t) => Val::Dur(t, nanos % 1_000_000_000),
                None => return Err(RefErr::Refuse.into()),
            }
        }
        Ty::Time => Val::T(sext(get(s, 8, Role::Data(Ty::Int(8)))?, 8) * 1_000_000_000),
        Ty::V4 => Val::U(get(s, 4, Role::Data(Ty::V4))?),
        Ty::V6 => Val::U(get(s, 16, Role::Data(Ty::V6))?),
        Ty::Ip | Ty::Sock => {
            let i = match get(s, 1, Role::Disc(Ty::UInt(1), vec![4, 6]))? { 4 => 0, 6 => 1, d => return Err(RefErr::Disc(d as i128, d).into()) };
            let t = if *ty == Ty::Ip { [Ty::V4, Ty::V6][i].clone() } else { [Ty::Sock4, Ty::Sock6][i].clone() };
            Val::Var(i, vec![decode(&t, s)?])
        }
        Ty::Sock4 => Val::L(vec![decode(&Ty::V4, s)?, decode(&Ty::UInt(2), s)?]),
        Ty::Sock6 => Val::L(vec![decode(&Ty::V6, s)?, decode(&Ty::UInt(2), s)?, decode(&Ty::UInt(4), s)?, decode(&Ty::UInt(4), s)?]),
        Ty::Struct(ts) => Val::L(ts.iter().map(|t| decode(t, s).map_err(|e| e.map(RefErr::generic_of))).collect::<Result<_, _>>()?),
        Ty::Enum(repr, vs) => {
            let ds: Vec<i128> = vs.iter().map(|v| v.0).collect();
            let (n, signed) = match **repr {
                Ty::UInt(n) => (n, false), Ty::Int(n) => (n, true),
                Ty::Usize => (2, false), Ty::Isize => (2, true), _ => panic!(),
            };
            let raw = get(s, n, Role::Disc((**repr).clone(), ds))?;
            let d = if signed { sext(raw, n) } else { raw as i128 };
            let Some(i) = vs.iter().position(|v| v.0 == d) else { return Err(Fail::Err(RefErr::Disc(d, zero_extend(repr, d)))) };
            Val::Var(i, vs[i].1.iter().map(|t| decode(t, s).map_err(|e| e.map(|e| RefErr::Field(bx(e.generic()))))).collect::<Result<_, _>>()?)
        }
    })
}

impl RefErr {
    fn generic_of(e: RefErr) -> RefErr { e.generic() }
}

fn items(t: &Ty, n: usize, s: &mut dyn Source) -> Result<Vec<Val>, Fail> {
    let mut l = Vec::new();
    for i in 0..n { l.push(decode(t, s).map_err(|e| e.map(|e| item(i, e)))?) }
    Ok(l)
}

fn sub(ty: &Ty) -> Vec<&Ty> {
    match ty {
        Ty::NonZero(t) | Ty::Opt(t) | Ty::Bound(t) | Ty::Arr(t, _) | Ty::Seq(t, _) | Ty::Set(t) | Ty::RefCell(t) => vec![t],
        Ty::Res(a, b) | Ty::Map(a, b) => vec![a, b],
        Ty::Tup(l) | Ty::Struct(l) => l.iter().collect(),
        Ty::Enum(_, l) => l.iter().flat_map(|v| v.1.iter()).collect(),
        _ => vec![],
    }
}

/// Whether the order of entries is not determined by the value.
pub fn unordered(ty: &Ty) -> bool {
    matches!(ty, Ty::Map(..) | Ty::Set(_)) || sub(ty).into_iter().any(unordered)
}

/// Sorts the entries of maps and sets.
pub fn norm(ty: &Ty, v: &Val) -> Val {
    if !unordered(ty) { return v.clone() }
    match (ty, v) {
        (Ty::Map(k, w), Val::L(l)) => {
            let mut l: Vec<Val> = l.iter().map(|e| {
                let Val::L(e) = e else { panic!() };
                Val::L(vec![norm(k, &e[0]), norm(w, &e[1])])
            }).collect();
            l.sort();
            Val::L(l)
        }
        (Ty::Set(t), Val::L(l)) => { let mut l: Vec<Val> = l.iter().map(|e| norm(t, e)).collect(); l.sort(); Val::L(l) }
        (Ty::Arr(t, _) | Ty::Seq(t, _), Val::L(l)) => Val::L(l.iter().map(|v| norm(t, v)).collect()),
        (Ty::Opt(t), Val::Opt(Some(v))) => opt(Some(norm(t, v))),
        (Ty::Opt(_), v) => v.clone(),
        (Ty::Res(t, _), Val::Ok(v)) => Val::Ok(Box::new(norm(t, v))),
        (Ty::Res(_, t), Val::Err(v)) => Val::Err(Box::new(norm(t, v))),
        (Ty::Bound(t), Val::Var(i, l)) => Val::Var(*i, l.iter().map(|v| norm(t, v)).collect()),
        (Ty::Tup(ts) | Ty::Struct(ts), Val::L(l)) => Val::L(ts.iter().zip(l).map(|(t, v)| norm(t, v)).collect()),
        (Ty::Enum(_, vs), Val::Var(i, l)) => Val::Var(*i, vs[*i].1.iter().zip(l).map(|(t, v)| norm(t, v)).collect()),
        (Ty::RefCell(t), v) => norm(t, v),
        (t, v) => panic!("norm: {v:?} is not a {t:?}"),
    }
}

/// What decoding the encoding of `v` must give.
pub fn lossy(ty: &Ty, v: &Val) -> Val {
    let mut out = Vec::new();
    encode(ty, v, &mut out).expect("lossy: not encodable");
    let mut s = Bytes::new(&out);
    let r = decode(ty, &mut s).expect("model: own encoding does not decode");
    assert_eq!(s.pos, out.len(), "model: own encoding is not consumed");
    r
}

/// Whether `bytes` is an encoding of `v`; entries of maps and sets may come
/// in any order.
pub fn encodes(ty: &Ty, v: &Val, bytes: &[u8]) -> bool {
    let mut out = Vec::new();
    if encode(ty, v, &mut out).is_err() { return false }
    if !unordered(ty) { return out == bytes }
    if out.len() != bytes.len() { return false }
    let mut s = Bytes::new(bytes);
    let Ok(d) = decode(ty, &mut s) else { return false };
    let mut again = Vec::new();
    s.pos == bytes.len() && norm(ty, &d) == norm(ty, v) && encode(ty, &d, &mut again).is_ok() && again == bytes
}

/// Least and greatest size of an encoding; `None` if it has no bound other
/// than that of the counts.
pub fn sizes(ty: &Ty) -> (usize, Option<usize>) {
    let seq = |l: &[Ty]| l.iter().map(sizes).fold((0, Some(0)), |a, b| (a.0 + b.0, a.1.zip(b.1).map(|(x, y)| x + y)));
    let plus = |n: usize, s: (usize, Option<usize>)| (n + s.0, s.1.map(|m| n + m));
    match ty {
        Ty::Unit => (0, Some(0)),
        Ty::Bool => (1, Some(1)),
        Ty::UInt(n) | Ty::Int(n) => (*n as usize, Some(*n as usize)),
        Ty::Usize | Ty::Isize => (2, Some(2)),
        Ty::F32 | Ty::Char | Ty::V4 => (4, Some(4)),
        Ty::F64 | Ty::Time => (8, Some(8)),
        Ty::NonZero(t) | Ty::RefCell(t) => sizes(t),
        Ty::Opt(t) => (1, plus(1, sizes(t)).1),
        Ty::Res(a, b) => {
            let (a, b) = (sizes(a), sizes(b));
            plus(1, (a.0.min(b.0), a.1.zip(b.1).map(|(x, y)| x.max(y))))
        }
        Ty::Bound(t) => (1, plus(1, sizes(t)).1),
        Ty::Arr(t, n) => { let s = sizes(t); (s.0 * n, if *n == 0 { Some(0) } else { s.1.map(|m| m * n) }) }
        Ty::Seq(t, cap) => (2, cap.and_then(|c| sizes(t).1.map(|m| 2 + m * c))),
        Ty::Str(cap) => (2, cap.map(|c| 2 + c)),
        Ty::CStr => (2, None),
        Ty::Tup(l) | Ty::Struct(l) => seq(l),
        Ty::Map(..) | Ty::Set(_) => (2, None),
        Ty::Dur => (12, Some(12)),
        Ty::V6 => (16, Some(16)),
        Ty::Ip => (5, Some(17)),
        Ty::Sock4 => (6, Some(6)),
        Ty::Sock6 => (26, Some(26)),
        Ty::Sock => (7, Some(27)),
        Ty::Enum(r, vs) => {
            let d = sizes(r).0;
            let all: Vec<_> = vs.iter().map(|v| seq(&v.1)).collect();
            if all.is_empty() { return (0, Some(d)) }
            plus(d, (all.iter().map(|s| s.0).min().unwrap(), all.iter().map(|s| s.1).try_fold(0, |a, b| b.map(|b| a.max(b)))))
        }
    }
}
