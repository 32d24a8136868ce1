//! C19: forms with the same scheme can be exchanged for each other.

use oct::decode::{Decode, Input};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::ffi::CStr;
use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::gen::values;
use vh::model::*;
use vh::reg::{self, full, unbounded, Entry};
use vh::{bad, ensure};

/// The scheme of a type: what its encoding consists of.
fn wire(ty: &Ty) -> Vec<Ty> {
    let one = |t: &Ty| { let mut w = wire(t); if w.len() == 1 { w.remove(0) } else { Ty::Tup(w) } };
    let bx = |t: &Ty| Box::new(one(t));
    match ty {
        Ty::Unit => vec![],
        Ty::Tup(l) | Ty::Struct(l) => l.iter().flat_map(wire).collect(),
        Ty::Arr(t, n) if *n <= 64 => (0..*n).flat_map(|_| wire(t)).collect(),
        Ty::RefCell(t) | Ty::NonZero(t) => wire(t),
        Ty::Seq(t, _) | Ty::Set(t) => vec![Ty::Seq(bx(t), None)],
        Ty::Map(k, v) => vec![Ty::Seq(Box::new(Ty::Tup([wire(k), wire(v)].concat())), None)],
        // Bytes with a count, whatever they mean.
        Ty::Str(_) | Ty::CStr => vec![Ty::Seq(Box::new(Ty::UInt(1)), None)],
        Ty::Opt(t) => vec![Ty::Opt(bx(t))],
        Ty::Res(a, b) => vec![Ty::Res(bx(a), bx(b))],
        Ty::Bound(t) => vec![Ty::Bound(bx(t))],
        Ty::Sock4 => vec![Ty::V4, Ty::UInt(2)],
        Ty::Sock6 => vec![Ty::V6, Ty::UInt(2), Ty::UInt(4), Ty::UInt(4)],
        Ty::Dur => vec![Ty::UInt(8), Ty::UInt(4)],
        t => vec![t.clone()],
    }
}

fn ordered(ty: &Ty) -> bool {
    match ty {
        Ty::Set(_) | Ty::Map(..) => false,
        Ty::Tup(l) | Ty::Struct(l) => l.iter().all(ordered),
        Ty::Enum(..) => true,
        Ty::Arr(t, _) | Ty::RefCell(t) | Ty::NonZero(t) | Ty::Seq(t, _) | Ty::Opt(t) | Ty::Bound(t) => ordered(t),
        Ty::Res(a, b) => ordered(a) && ordered(b),
        _ => true,
    }
}

fn exchange(a: &Entry, v: &Val, b: &Entry) -> CaseResult {
    let mut m = Vec::new();
    // In the order in which the object has its contents.
    let canon = (a.canon)(v);
    if encode(&a.ty, &canon, &mut m).is_err() { bad!("harness", "not encodable") }
    let enc = encode_real(a, v, m.len(), 0x66);
    ensure!(enc.ok(), format!("{}: not encoded", a.name), "{:?}", enc.res);
    let bytes = enc.bytes().to_vec();
    let mut data = bytes.clone();
    data.extend([0x21; 40]);
    // What the other form means by the same contents, in the documented format.
    let mut doc = m.clone();
    doc.extend([0x21; 40]);
    let mut src = Bytes::new(&doc);
    let want = decode(&b.ty, &mut src);
    let used = src.pos + bytes.len() - m.len();
    let mut i = Input::new(&data);
    let d = decode_in(b, &mut i);
    let sig = |k: &str| format!("{} to {}: {k}", a.name, b.name);
    match (d.res, want) {
        (Err(p), _) => bad!(sig("panics"), "{}: {p}", hex(&bytes)),
        (Ok(Ok(g)), Ok(w)) => {
            ensure!(norm(&b.ty, &g) == norm(&b.ty, &w), sig("contents"), "{} gives {} instead of {}", hex(&bytes), show(&g), show(&w));
            ensure!(d.pos == used && used == bytes.len(), sig("consumed"), "{} of {}", d.pos, bytes.len());
            // Its own encoding is the same, unless it has a simpler one (or
            // an order of its own).
            let mut again = Vec::new();
            if ordered(&b.ty) && encode(&b.ty, &w, &mut again).is_ok() && again == m {
                let r = encode_real(b, &w, m.len() + 8, 0x99);
                ensure!(r.ok() && r.bytes() == bytes, sig("encoding"), "{} gives {:?} {} instead of {}", show(&w), r.res, hex(r.bytes()), hex(&bytes));
            }
            Ok("exchanged")
        }
        (Ok(Err(x)), Err(Fail::Err(w))) => { ensure!(x == w, sig("error"), "{x:?} instead of {w:?}"); Ok("does not fit") }
        (Ok(r), w) => bad!(sig("result"), "{} gives {r:?} instead of {w:?}", hex(&bytes)),
    }
}

/// More capacities than the registry has.
fn more() -> Vec<Entry> {
    let mut l = Vec::new();
    macro_rules! full_of { ($($t:ty),*) => { $( l.push(full::<$t>(concat!(stringify!($t), " "))); )* } }
    full_of!(SizedSlice<u8, 2>, SizedSlice<u8, 3>, SizedSlice<u8, 5>, SizedSlice<u8, 6>, SizedSlice<u8, 16>, SizedSlice<u16, 0>, SizedSlice<u16, 1>, SizedSlice<u16, 2>, SizedSlice<u16, 4>, SizedSlice<u16, 8>,
        SizedSlice<char, 0>, SizedSlice<char, 1>, SizedSlice<char, 3>, SizedSlice<u32, 2>, SizedSlice<u32, 3>, SizedStr<5>, SizedStr<6>, SizedStr<8>, SizedStr<9>, SizedSlice<(), 1>, SizedSlice<(), 3>,
        [u8; 2], [u8; 5], [u16; 1], [u16; 3], [char; 1], (u8, u8), (u8, u8, u8), (u16, u16), (u8, u8, u8, u8, u8), (char,), (u16, i32, u8), [(u8, u8); 2], SizedSlice<String2, 2>);
    l.push(unbounded::<Vec<SizedSlice<u8, 3>>>("Vec<SizedSlice<u8, 3>>"));
    l.push(unbounded::<SizedSlice<Vec<u8>, 3>>("SizedSlice<Vec<u8>, 3>"));
    l.push(unbounded::<std::collections::LinkedList<String>>("LinkedList<String>"));
    l.push(unbounded::<Vec<u64>>("Vec<u64>"));
    l.push(unbounded::<Vec<(u8, u8)>>("Vec<(u8, u8)>"));
    l.push(unbounded::<Vec<(u16, u8)>>("Vec<(u16, u8)>"));
    l
}
type String2 = SizedStr<2>;

fn main() {
    run(|| {
        let mut s = Vec::new();
        let mut l = reg::all();
        let have: std::collections::HashSet<String> = l.iter().map(|e| e.name.clone()).collect();
        l.extend(more().into_iter().filter(|e| !have.contains(&e.name)));
        let all: Rc<Vec<(Entry, Vec<Ty>)>> = Rc::new(l.into_iter().map(|e| { let w = wire(&e.ty); (e, w) }).collect());
        for i in 0..all.len() {
            let all = all.clone();
            s.push(section(format!("{} to every form", all[i].0.name), move |cx| {
                let (a, w) = &all[i];
                let vs = values(&a.ty, if a.heavy { 1 } else { 2 });
                for (j, (b, x)) in all.iter().enumerate() {
                    if b.dec.is_none() || x != w { continue }
                    let step = if cx.thorough { 1 } else { vs.len().div_ceil(4000) };
                    for v in vs.iter().step_by(step) {
                        cx.case(fp_of(&(j, v)), || format!("{} {} to {}", a.name, show(v), b.name), |_| exchange(a, v, b));
                    }
                }
            }));
        }
        s.push(section("clone-on-write values are owned", |cx| {
            macro_rules! owned { ($n:literal, $t:ty, $bytes:expr, $want:expr) => {
                cx.case(fp_of(&$n), || format!("{} from {}", $n, hex($bytes)), |_| {
                    let mut i = Input::new($bytes);
                    match <Cow<'static, $t>>::decode(&mut i) {
                        Ok(Cow::Owned(v)) => { ensure!(v == $want, format!("{}: contents", $n), ""); Ok("owned") }
                        Ok(Cow::Borrowed(_)) => bad!(format!("{}: borrowed", $n), ""),
                        Err(_) => bad!(format!("{}: refused", $n), ""),
                    }
                });
            } }
            owned!("Cow<u8>", u8, &[7], 7u8);
            owned!("Cow<str>", str, &[2, 0, b'a', b'b'], "ab".to_string());
            owned!("Cow<str>, empty", str, &[0, 0], String::new());
            owned!("Cow<[u16]>", [u16], &[2, 0, 1, 2, 3, 4], vec![0x0201u16, 0x0403]);
            owned!("Cow<[u16]>, empty", [u16], &[0, 0], Vec::<u16>::new());
            owned!("Cow<CStr>", CStr, &[1, 0, b'x'], c"x".to_owned());
            owned!("Cow<String>", String, &[1, 0, b'x'], "x".to_string());
            owned!("Cow<[u8; 2]>", [u8; 2], &[1, 9], [1u8, 9]);
            owned!("Cow<SizedStr<4>>", SizedStr<4>, &[1, 0, b'x'], "x");
            owned!("Cow<Vec<u8>>", Vec<u8>, &[1, 0, 9], vec![9u8]);
        }));
        s
    });
}
