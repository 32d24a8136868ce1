//! Running the library's codecs inside guarded buffers, and making up byte
//! sequences for them.

use crate::chooser::Chooser;
use crate::cx::guard;
use crate::gen;
use crate::model::{decode, Fail, RefErr, Role, Source, Ty, Val};
use crate::reg::Entry;
use oct::decode::Input;
use oct::encode::Output;
use std::collections::HashMap;
use std::rc::Rc;

pub const PAD: usize = 64;

/// What encoding into an output of the given capacity did.
pub struct Enc {
    /// `Err` is a panic.
    pub res: Result<Result<(), RefErr>, String>,
    pub pos: usize,
    /// The whole of the output's buffer.
    pub buf: Vec<u8>,
    /// Bytes outside of the buffer changed.
    pub smashed: bool,
    /// Position, remaining and capacity agree.
    pub sane: bool,
}

impl Enc {
    pub fn ok(&self) -> bool { matches!(self.res, Ok(Ok(()))) }
    pub fn bytes(&self) -> &[u8] { &self.buf[..self.pos] }
}

pub fn encode_with(cap: usize, fill: u8, f: impl FnOnce(&mut Output) -> Result<(), RefErr>) -> Enc {
    let mut all = vec![fill; cap + 2 * PAD];
    let mut pos = 0;
    let mut sane = true;
    let res = {
        let mut out = Output::new(&mut all[PAD..PAD + cap]);
        let r = guard(|| f(&mut out));
        pos += out.position();
        sane &= out.capacity() == cap && pos <= cap && out.remaining() == cap - pos;
        if pos <= cap {
            sane &= out.as_slice().len() == pos;
            // Still usable: what remains can be written, and no more.
            let rem = cap - pos;
            if rem > 0 && !matches!(r, Ok(Ok(()))) {
                sane &= out.write(&vec![fill; rem]).is_ok() && out.position() == cap;
                sane &= out.write(&[0]).is_err();
            }
        }
        r
    };
    let smashed = all[..PAD].iter().chain(&all[PAD + cap..]).any(|b| *b != fill);
    let buf = all[PAD..PAD + cap].to_vec();
    Enc { res, pos, buf, smashed, sane }
}

pub fn encode_real(e: &Entry, v: &Val, cap: usize, fill: u8) -> Enc {
    encode_with(cap, fill, |o| (e.enc)(v, o))
}

pub struct Dec {
    pub res: Result<Result<Val, RefErr>, String>,
    pub pos: usize,
    pub sane: bool,
}

/// Decodes from `data`, which lies within other bytes of the given value.
pub fn decode_around(e: &Entry, data: &[u8], fill: u8) -> Dec {
    let mut all = vec![fill; PAD];
    all.extend_from_slice(data);
    all.resize(data.len() + 2 * PAD, fill);
    let mut inp = Input::new(&all[PAD..PAD + data.len()]);
    decode_in(e, &mut inp)
}

pub fn decode_in(e: &Entry, inp: &mut Input) -> Dec {
    let cap = inp.capacity();
    let dec = e.dec.as_ref().unwrap();
    let res = guard(|| dec(inp));
    let pos = inp.position();
    let mut sane = inp.capacity() == cap && pos <= cap && inp.remaining() == cap - pos;
    if pos <= cap {
        let rem = cap - pos;
        sane &= inp.read(rem + 1).is_err() && inp.position() == pos;
        if let Ok(r) = inp.read(rem) { sane &= r.len() == rem } else { sane = false }
    }
    Dec { res, pos, sane }
}

/// A long reusable input: `data` followed by plenty of other bytes, so that
/// no decoder can run out of input.
pub struct Ample { buf: Vec<u8>, fill: u8 }
impl Ample {
    pub fn new(fill: u8, n: usize) -> Self { Ample { buf: vec![fill; n], fill } }
    pub fn fill(&self) -> u8 { self.fill }
    pub fn with<R>(&mut self, data: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
        if data.len() + 4096 > self.buf.len() { self.buf.resize(data.len() + 4096, self.fill) }
        self.buf[..data.len()].copy_from_slice(data);
        let r = f(&self.buf);
        self.buf[..data.len()].fill(self.fill);
        r
    }
}

/// Byte sequences for a type, made up along the model's decoder: wherever it
/// asks for bytes there is a choice from an alphabet that depends on what
/// they are for. At most `devs` choices of a sequence differ from the
/// default (the first of each alphabet), among the first `points` choices.
pub struct Explorer<'a> {
    pub ch: &'a mut Chooser,
    pub devs: usize,
    pub points: usize,
    pub lvl: u32,
    pub data: Vec<u8>,
    pub cache: &'a mut HashMap<(u32, u32, usize, usize), Rc<Vec<Vec<u8>>>>,
}

pub type Cache = HashMap<(u32, u32, usize, usize), Rc<Vec<Vec<u8>>>>;

fn le(v: u128, n: usize) -> Vec<u8> { v.to_le_bytes()[..n].to_vec() }

pub const UTF8_CLASSES: &[u8] = &[
    0x41, 0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff,
];

/// All strings of length `n` over the alphabet.
pub fn words_over(alpha: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..n { v = v.into_iter().flat_map(|w: Vec<u8>| alpha.iter().map(move |a| { let mut w = w.clone(); w.push(*a); w })).collect() }
    v
}

pub fn utf8_alphabet(n: usize, full: usize) -> Vec<Vec<u8>> {
    if n <= full { return words_over(UTF8_CLASSES, n) }
    let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let mut v = vec![base.clone()];
    let seqs: &[&[u8]] = &[
        &[0x80], &[0xff], &[0xc3, 0xa9], &[0xc3], &[0xc0, 0x80], &[0xe2, 0x82, 0xac], &[0xe2, 0x82], &[0xe2], &[0xed, 0xa0, 0x80], &[0xed, 0x9f, 0xbf],
        &[0xe0, 0x9f, 0xbf], &[0xf0, 0x9f, 0x98, 0x80], &[0xf0, 0x9f, 0x98], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf4, 0x8f, 0xbf, 0xbf], &[0x00],
    ];
    let places: Vec<usize> = if n <= 40 { (0..n).collect() } else { (0..4).chain(n / 2 - 2..n / 2 + 2).chain(n - 5..n).collect() };
    for s in seqs {
        for at in &places {
            if at + s.len() <= n { let mut w = base.clone(); w[*at..at + s.len()].copy_from_slice(s); v.push(w) }
        }
    }
    v
}

fn alphabet(n: usize, role: &Role, lvl: u32) -> Vec<Vec<u8>> {
    let w = |lvl: u32| gen::words(n as u32, if n <= 1 { 3 } else { lvl });
    let raw = |v: Vec<u128>| -> Vec<Vec<u8>> { v.into_iter().map(|x| le(x, n)).collect() };
    let mut v: Vec<Vec<u8>> = match role {
        Role::Data(t) => raw(w(lvl).into_iter().chain(gen::special(t)).collect()),
        Role::Bool => raw([1, 0].into_iter().chain(2..256).collect()),
        Role::Count(cap) => {
            let mut v: Vec<u128> = vec![2, 0, 1, 3, 4];
            if let Some(c) = *cap {
                let c = c as u128;
                v.extend([c, c + 1, c + 2, 255, 256, 257, 511, 512, 0x7fff, 0x8000, 0xff00, 65535, c | 0x100, c | 0x8000, c << 8]);
                if c > 0 { v.push(c - 1) }
                // A default that fits.
                v.insert(0, c.min(2));
            }
            v.retain(|x| *x <= 65535);
            raw(v)
        }
        Role::Utf8 => utf8_alphabet(n, if lvl >= 3 { 4 } else { 3 }),
        Role::CStr => {
            let base: Vec<u8> = (0..n).map(|i| 255 - (i % 255) as u8).collect();
            let mut v = vec![base.clone()];
            for i in 0..n.min(64) { let mut w = base.clone(); w[i] = 0; v.push(w.clone()); if i + 1 < n { w[i + 1] = 0; v.push(w) } }
            if n > 64 { let mut w = base.clone(); w[n - 1] = 0; v.push(w) }
            if n == 1 { v.extend((0..=255u8).map(|b| vec![b])) }
            if n == 2 && lvl >= 3 { v.extend((0..=65535u16).map(|b| b.to_le_bytes().to_vec())) }
            v
        }
        Role::Char => {
            let mut v: Vec<u128> = vec![0x41, 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x110001, 0x1fffff,
                0x8000_0000, 0xffff_ffff, 0xd800_0000, 0x0001_d800, 0x0010_dfff, 0x0011_0041, 0x0100_0041, 0xff00_0041, 0x00d8_0000, 0x0020_0000];
            v.extend(0xd800..=0xdfff);
            if lvl >= 3 { v.extend(0..0x11_2000); v.extend(gen::words(4, 3)) } else if lvl == 2 { v.extend(gen::words(4, 2)) }
            raw(v)
        }
        Role::NonZero => {
            let mut v = w(lvl);
            v.retain(|x| *x != 0);
            v.insert(1, 0);
            raw(v)
        }
        Role::Disc(_, ds) => {
            let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
            let mut v: Vec<u128> = ds.iter().map(|d| *d as u128 & mask).collect();
            for d in v.clone() {
                v.extend([d.wrapping_add(1) & mask, d.wrapping_sub(1) & mask, !d & mask]);
                for b in 0..8 * n { v.push(d ^ (1 << b)) }
                let mut sw = le(d, n);
                sw.reverse();
                let mut x = [0; 16];
                x[..n].copy_from_slice(&sw);
                v.push(u128::from_le_bytes(x));
            }
            v.extend(w(lvl));
            // Discriminants that do not fit cannot be encoded, and their low
            // bits must not be taken for them.
            raw(v)
        }
        Role::Secs => { let mut v = w(2); v.extend([u64::MAX as u128, u64::MAX as u128 - 3, u64::MAX as u128 - 4, u64::MAX as u128 - 5]); raw(v) }
        Role::Nanos => {
            let mut v: Vec<u128> = vec![123_456_789];
            for k in 0..=4u128 { for d in [0u128, 1, 999_999_999] { v.push(k * 1_000_000_000 + d) } }
            v.extend(w(2));
            v.retain(|x| *x <= u32::MAX as u128);
            raw(v)
        }
    };
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

impl Source for Explorer<'_> {
    fn bytes(&mut self, n: usize, role: Role) -> Option<Vec<u8>> {
        if n == 0 { return Some(vec![]) }
        let key = match &role {
            Role::Data(t) => (match t { Ty::F32 | Ty::F64 => 10, Ty::V4 | Ty::V6 => 11, _ => 0 }, self.lvl, n, 0),
            Role::Bool => (1, 0, n, 0),
            Role::Count(c) => (2, self.lvl, n, c.map_or(0, |c| c + 1)),
            Role::Utf8 => (3, self.lvl, n, 0),
            Role::CStr => (4, self.lvl, n, 0),
            Role::Char => (5, self.lvl, n, 0),
            Role::NonZero => (6, self.lvl, n, 0),
            Role::Disc(t, d) => (7, self.lvl, n, crate::cx::fp_of(&(format!("{t:?}"), d.clone())) as usize),
            Role::Secs => (8, 0, n, 0),
            Role::Nanos => (9, 0, n, 0),
        };
        let lvl = self.lvl;
        let a = self.cache.entry(key).or_insert_with(|| Rc::new(alphabet(n, &role, lvl))).clone();
        let i = if self.devs == 0 || self.points == 0 { 0 } else { self.ch.choose(a.len()) };
        if self.points > 0 { self.points -= 1 }
        if i > 0 { self.devs -= 1 }
        self.data.extend_from_slice(&a[i]);
        Some(a[i].clone())
    }
}

/// Runs `f` for every made-up sequence of the type; returns their number.
pub fn sequences(ty: &Ty, devs: usize, points: usize, lvl: u32, mut f: impl FnMut(&[u8], Result<Val, RefErr>)) -> u64 {
    let mut cache = Cache::new();
    crate::chooser::explore(|ch| {
        let mut x = Explorer { ch, devs, points, lvl, data: Vec::new(), cache: &mut cache };
        let r = decode(ty, &mut x);
        let data = std::mem::take(&mut x.data);
        f(&data, match r {
            Ok(v) => Ok(v),
            Err(Fail::Err(e)) => Err(e),
            Err(e) => panic!("explored sequence ends in {e:?}"),
        });
    })
}

/// How far to explore a type, so that the number of sequences stays sane.
pub fn bounds(e: &Entry, thorough: bool) -> (usize, usize, u32) {
    // Scalars: the full alphabet of their only choice.
    let scalar = matches!(e.ty, Ty::Bool | Ty::UInt(_) | Ty::Int(_) | Ty::Usize | Ty::Isize | Ty::F32 | Ty::F64 | Ty::Char | Ty::NonZero(_) | Ty::V4 | Ty::V6 | Ty::Unit | Ty::Time);
    if scalar { return (1, 1, 3) }
    if matches!(e.ty, Ty::Str(_) | Ty::CStr) { return (2, 2, if thorough { 3 } else { 2 }) }
    if let Ty::Arr(t, n) = &e.ty { if *n > 64 { return (1, if matches!(**t, Ty::UInt(1)) { 300 } else { 12 }, 1) } }
    if thorough { (3, 5, 1) } else { (2, 6, 1) }
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 48 { return format!("{}..({} bytes)", hex(&b[..48]), b.len()) }
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn show(v: &Val) -> String {
    let s = format!("{v:?}");
    if s.len() > 300 { format!("{}..", s.chars().take(300).collect::<String>()) } else { s }
}
