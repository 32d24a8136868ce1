//! C04: values that are encoded one after another stay independent.

use oct::decode::Input;
use oct::encode::Output;
use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::gen::values;
use vh::model::*;
use vh::reg::{self, Entry};
use vh::{bad, ensure};

/// Calls on other streams: failing ones (short output, short input) and
/// successful ones. Their results must be those that they always have.
fn elsewhere(e: &Entry, v: &Val, k: usize) -> Result<(), Bad> {
    let mut m = Vec::new();
    encode(&e.ty, v, &mut m).unwrap();
    match k {
        0 => {}
        _ if e.dec.is_none() => {}
        1 => {
            if m.is_empty() { return Ok(()) }
            let r = encode_real(e, v, m.len() - 1, 0xee);
            ensure!(!r.ok(), format!("{}: short output passes", e.name), "");
            let d = decode_around(e, &m[..m.len() - 1], 0xee);
            ensure!(!matches!(d.res, Ok(Ok(_))), format!("{}: short input passes", e.name), "");
        }
        _ => {
            let r = encode_real(e, v, m.len() + 3, 0xee);
            ensure!(r.ok() && encodes(&e.ty, v, r.bytes()), format!("{}: other stream", e.name), "encodes to {}", hex(r.bytes()));
            m.extend([0xff; 3]);
            let d = decode_around(e, &m, 0xee);
            ensure!(matches!(d.res, Ok(Ok(_))), format!("{}: other stream", e.name), "does not decode");
        }
    }
    Ok(())
}

fn chain(es: &[(&Entry, &Val)], offset: usize, fill: u8, other: usize) -> CaseResult {
    let name = || es.iter().map(|e| e.0.name.as_str()).collect::<Vec<_>>().join(" then ");
    let mut want = Vec::new();
    for (e, v) in es { encode(&e.ty, v, &mut want).unwrap() }
    let cap = offset + want.len() + 9;
    let mut buf = vec![fill; cap];
    let mut ends = Vec::new();
    {
        let mut out = Output::new(&mut buf);
        let pre: Vec<u8> = (0..offset).map(|i| 0xc0 ^ i as u8).collect();
        if out.write(&pre).is_err() { bad!("write", "refused") }
        let mut at = offset;
        for (e, v) in es {
            match guard(|| (e.enc)(v, &mut out)) {
                Ok(Ok(())) => {}
                r => bad!(format!("{} in a chain: not encoded", e.name), "{}: {r:?}", name()),
            }
            let mut one = Vec::new();
            encode(&e.ty, v, &mut one).unwrap();
            let end = out.position();
            ensure!(end == at + one.len(), format!("{} in a chain: position", e.name), "{}: {end} instead of {}", name(), at + one.len());
            ensure!(encodes(&e.ty, v, &out.as_slice()[at..end]), format!("{} in a chain: bytes", e.name), "{}: {} instead of {}", name(), hex(&out.as_slice()[at..end]), hex(&one));
            ends.push(end);
            at = end;
            elsewhere(e, v, other)?;
        }
        ensure!(out.as_slice()[..offset] == pre[..], "what precedes changed", "{}", name());
    }
    let end = *ends.last().unwrap_or(&offset);
    ensure!(buf[end..].iter().all(|b| *b == fill), "what follows changed", "{}: {}", name(), hex(&buf));
    // Concatenation: each encoding is in the place where the last one ended.
    if es.iter().all(|e| !unordered(&e.0.ty)) { ensure!(buf[offset..end] == want[..], "not the concatenation", "{}: {} instead of {}", name(), hex(&buf[offset..end]), hex(&want)) }
    if es.iter().any(|e| e.0.dec.is_none()) { return Ok("encoded only") }
    let mut inp = Input::new(&buf);
    if inp.read(offset).is_err() { bad!("read", "refused") }
    for ((e, v), end) in es.iter().zip(&ends) {
        let dec = e.dec.as_ref().unwrap();
        let got = match guard(|| dec(&mut inp)) {
            Ok(Ok(g)) => g,
            r => bad!(format!("{} in a chain: not decoded", e.name), "{}: {r:?} from {}", name(), hex(&buf)),
        };
        ensure!(norm(&e.ty, &got) == norm(&e.ty, &lossy(&e.ty, v)), format!("{} in a chain: value", e.name), "{}: {} instead of {}", name(), show(&got), show(v));
        ensure!(inp.position() == *end, format!("{} in a chain: position of the input", e.name), "{}: {} instead of {end}", name(), inp.position());
        elsewhere(e, v, other)?;
    }
    Ok("concatenated")
}

/// How a sequence is decoded does not depend on its surroundings: what is
/// made of it before plenty of zeros is what is made of it before, and
/// behind, anything else.
fn surroundings(e: &Entry, data: &[u8], bufs: &mut [Ample]) -> CaseResult {
    let dec = e.dec.as_ref().unwrap();
    let n = data.len();
    let mut first: Option<(Val, usize)> = None;
    for (k, a) in bufs.iter_mut().enumerate() {
        // After a few bytes that have already been read.
        let skip = [0, 3, 1, 2, 5][k % 5];
        let mut all = vec![0x80 | k as u8; skip];
        all.extend_from_slice(data);
        let (r, pos) = a.with(&all, |b| {
            let mut i = Input::new(b);
            i.read(skip).map(drop).ok();
            let r = guard(|| dec(&mut i));
            (r, i.position().wrapping_sub(skip))
        });
        let got = match r { Ok(Ok(v)) => Some((norm(&e.ty, &v), pos)), _ => None };
        if k == 0 {
            // Bytes beyond the sequence were used: other properties.
            if pos > n { return Ok("uses other bytes") }
            first = got;
            continue;
        }
        ensure!(got == first, format!("{}: depends on what surrounds it", e.name), "{} gives {got:?} after {skip} bytes and before {:02x}, but {first:?} before 00", hex(data), a.fill());
    }
    // Nothing follows.
    if let Some(first) = first {
        let d = decode_around(e, data, 0x80);
        let got = match d.res { Ok(Ok(v)) => Some((norm(&e.ty, &v), d.pos)), _ => None };
        ensure!(got.as_ref() == Some(&first), format!("{}: depends on what follows", e.name), "{} gives {got:?} if nothing follows, but {first:?} before 00", hex(data));
        return Ok("accepted in all surroundings");
    }
    Ok("refused in all surroundings")
}

/// The encoding of a value depends on neither the capacity nor the position
/// nor the contents of the output.
fn places(e: &Entry, v: &Val) -> CaseResult {
    let mut m = Vec::new();
    encode(&e.ty, v, &mut m).unwrap();
    let mut first: Option<Vec<u8>> = None;
    for (skip, more, fill) in [(0usize, 0usize, 0u8), (0, 1, 0xff), (1, 0, 0x80), (3, 40, 0xa5), (5, 0, 0x01), (8, 3000, 0)] {
        let mut buf = vec![fill; skip + m.len() + more];
        let mut o = Output::new(&mut buf);
        o.write(&vec![!fill; skip]).ok();
        match guard(|| (e.enc)(v, &mut o)) {
            Ok(Ok(())) => {}
            r => bad!(format!("{}: refused", e.name), "{} after {skip} bytes, with room for {more} more: {r:?}", show(v)),
        }
        let got = o.as_slice()[skip..].to_vec();
        ensure!(o.as_slice()[..skip].iter().all(|b| *b == !fill), format!("{}: what precedes changes", e.name), "{}", show(v));
        // The order of unordered collections may differ.
        if unordered(&e.ty) {
            ensure!(encodes(&e.ty, v, &got), format!("{}: depends on the place", e.name), "{} after {skip} bytes, with room for {more} more: {}", show(v), hex(&got));
            continue;
        }
        match &first {
            None => first = Some(got),
            Some(f) => ensure!(*f == got, format!("{}: depends on the place", e.name), "{} after {skip} bytes, with room for {more} more over {fill:02x}: {} instead of {}", show(v), hex(&got), hex(f)),
        }
    }
    Ok("the same in all places")
}

fn failed<T, E>(r: Result<T, E>) -> Result<(), String> { match r { Err(_) => Ok(()), Ok(_) => Err("passes".into()) } }

/// Calls on streams of their own that fail, one kind each.
type Failure = (&'static str, Box<dyn Fn() -> Result<(), String>>);
fn failures() -> Vec<Failure> {
    fn e<T: oct::encode::Encode + ?Sized>(v: &T, room: usize) -> Result<(), String> {
        let mut b = vec![0x5a; room];
        failed(v.encode(&mut Output::new(&mut b)))
    }
    fn d<T: oct::decode::Decode>(b: &[u8]) -> Result<(), String> { failed(T::decode(&mut Input::new(b))) }
    macro_rules! l { ($($n:literal: $e:expr;)*) => { vec![$(($n, Box::new(|| $e) as Box<dyn Fn() -> Result<(), String>>)),*] } }
    l!(
        "65536usize": e(&65536usize, 9);
        "usize::MAX": e(&usize::MAX, 9);
        "32768isize": e(&32768isize, 9);
        "-32769isize": e(&-32769isize, 9);
        "RangeTo of a large usize": e(&(..70000usize), 9);
        "a slice of 65536 items": e(&[()][..0].iter().chain(&vec![(); 65536]).copied().collect::<Vec<()>>()[..], 9);
        "a vector of 65536 bytes": e(&vec![1u8; 65536], 70000);
        "a string of 65536 bytes": e("a".repeat(65536).as_str(), 70000);
        "a vector with a large usize": e(&vec![1usize, 2, 65536], 90);
        "a time before the epoch": e(&(std::time::UNIX_EPOCH - std::time::Duration::new(1, 1)), 7);
        "a late time": e(&(std::time::UNIX_EPOCH + std::time::Duration::new(i64::MAX as u64, 0)), 3);
        "a cell that is borrowed": { let c = std::cell::RefCell::new(1u8); let _g = c.borrow_mut(); e(&c, 9) };
        "Err(65536usize)": e(&Result::<usize, usize>::Err(65536), 9);
        "an array without room": e(&[1u32, 2, 3], 11);
        "a string without room": e("abcdef", 7);
        "a character without room": e(&'a', 3);
        "None without room": e(&Option::<u8>::None, 0);
        "a map without room": e(&std::collections::HashMap::from([(1u8, 2u16), (2, 3)]), 7);
        "an address without room": e(&std::net::IpAddr::from([1, 2, 3, 4]), 4);
        "a zero byte count": d::<Vec<u8>>(&[0xff, 0xff, 1]);
        "a surrogate": d::<char>(&[0, 0xd8, 0, 0]);
        "a large character": d::<char>(&[0, 0, 0x11, 0]);
        "zero": d::<std::num::NonZero<u16>>(&[0, 0]);
        "bad UTF-8": d::<String>(&[3, 0, b'a', 0xff, b'b']);
        "cut UTF-8": d::<String>(&[3, 0, b'a', 0xe2, 0x82]);
        "a zero within a string": d::<std::ffi::CString>(&[3, 0, b'a', 0, b'b']);
        "a bad discriminant of a bound": d::<std::ops::Bound<u8>>(&[7, 1]);
        "a bad discriminant of an address": d::<std::net::IpAddr>(&[9, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]);
        "too long for the capacity": d::<oct::SizedSlice<u8, 2>>(&[3, 0, 1, 2, 3]);
        "too long a string": d::<oct::SizedStr<2>>(&[3, 0, b'a', b'b', b'c']);
        "bad UTF-8 in a sized string": d::<oct::SizedStr<4>>(&[3, 0, b'a', 0xf0, b'c']);
        "a bad item": d::<Vec<char>>(&[2, 0, b'a', 0, 0, 0, 0, 0xdc, 0, 0]);
        "a bad item of an array": d::<[char; 2]>(&[b'a', 0, 0, 0, 0, 0xdc, 0, 0]);
        "a bad key": d::<std::collections::HashMap<char, char>>(&[2, 0, b'a', 0, 0, 0, 1, 0, 0, 0, 0, 0xdc, 0, 0, 2, 0, 0, 0]);
        "nothing at all": d::<u128>(&[]);
        "too short a read": failed(Input::new(&[1, 2, 3]).read(4));
        "too long a write": failed(Output::new(&mut [1, 2, 3]).write(&[9; 4]));
    )
}

/// A value is encoded and decoded as ever after calls that failed.
fn afterwards(e: &Entry, v: &Val, fs: &[Failure], first: Option<&Failure>) -> CaseResult {
    let mut m = Vec::new();
    encode(&e.ty, v, &mut m).unwrap();
    for f in fs {
        let name = || match first { Some(g) => format!("{} and {}", g.0, f.0), None => f.0.to_string() };
        let fail = || {
            for f in first.into_iter().chain([f]) {
                match guard(&f.1) {
                    Ok(Err(_)) => bad!(format!("{}: not refused", f.0), ""),
                    // Short streams may be refused by panicking.
                    Ok(Ok(())) | Err(_) => {}
                }
            }
            Ok(())
        };
        fail()?;
        let r = encode_real(e, v, m.len() + 2, 0xee);
        ensure!(r.ok() && encodes(&e.ty, v, r.bytes()), format!("{}: depends on calls that failed", e.name), "after {}: {} is encoded as {}", name(), show(v), hex(r.bytes()));
        if e.dec.is_none() { continue }
        fail()?;
        let d = decode_around(e, r.bytes(), 0xee);
        match d.res {
            Ok(Ok(g)) if norm(&e.ty, &g) == norm(&e.ty, &lossy(&e.ty, v)) && d.pos == m.len() => {}
            o => bad!(format!("{}: depends on calls that failed", e.name), "after {}: {} is decoded from {} as {o:?}", name(), show(v), hex(&m)),
        }
    }
    Ok("as ever after failures")
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            if e.heavy { continue }
            let e = Rc::new(e);
            let f = e.clone();
            s.push(section(format!("{} in other places", e.name), move |cx| {
                for v in values(&f.ty, if cx.thorough { 3 } else { 2 }) { cx.case(fp_of(&v), || format!("{} {}", f.name, show(&v)), |_| places(&f, &v)) }
            }));
            let f = e.clone();
            s.push(section(format!("{} after failures", e.name), move |cx| {
                let fs = failures();
                let vs = (0..=2).rev().map(|l| values(&f.ty, l)).find(|v| cx.thorough || v.len() <= 1000).unwrap_or_else(|| values(&f.ty, 0));
                for (k, v) in vs.iter().enumerate() {
                    cx.case(fp_of(v), || format!("{} {}", f.name, show(v)), |_| afterwards(&f, v, &fs, None));
                    // After two of them.
                    if k < if cx.thorough { 30 } else { 2 } { for g in &fs { cx.case(fp_of(&(g.0, v)), || format!("{} {} after {}", f.name, show(v), g.0), |_| afterwards(&f, v, &fs, Some(g))) } }
                }
            }));
            if e.dec.is_none() { continue }
            s.push(section(format!("{} in other surroundings", e.name), move |cx| {
                let (devs, points, lvl) = bounds(&e, cx.thorough);
                let (devs, points, lvl) = if cx.thorough { (devs, points, lvl) } else { (devs.min(2), points.min(4), lvl.min(2)) };
                let mut a: Vec<Ample> = [0u8, 0xff, 0x80, 0xa9, 0x41].map(|f| Ample::new(f, 1 << 17)).into();
                sequences(&e.ty, devs, points, lvl, |data, _| {
                    cx.case(Fp::of(data), || format!("{} from {}", e.name, hex(data)), |_| surroundings(&e, data, &mut a));
                });
            }));
        }
        let all: Rc<Vec<(Entry, Vec<Val>)>> = Rc::new(reg::all().into_iter().filter(|e| !e.heavy).map(|e| {
            let v = values(&e.ty, 0).into_iter().take(3).collect();
            (e, v)
        }).collect());
        for i in 0..all.len() {
            let all = all.clone();
            s.push(section(format!("{} and every other", all[i].0.name), move |cx| {
                let (a, va) = &all[i];
                for (j, (b, vb)) in all.iter().enumerate() {
                    for (x, v) in va.iter().enumerate() {
                        for (y, w) in vb.iter().enumerate() {
                            
                            let ways: &[(usize, u8, usize)] = if cx.thorough { &[(0, 0xa5, 0), (3, 0, 2), (1, 0xff, 0), (0, 0x00, 1), (2, 0x01, 2), (5, 0x80, 1)] } else { &[(0, 0xa5, 0), (3, 0, 2), (1, 0xff, 0)] };
                            for (k, (off, fill, other)) in ways.iter().enumerate() {
                                cx.case(fp_of(&(j, x, y, k)), || format!("{} {} then {} {} at {off} over {fill:02x}", a.name, show(v), b.name, show(w)), |_| chain(&[(a, v), (b, w)], *off, *fill, *other));
                            }
                            if (x, y) == (0, 0) {
                                cx.case(fp_of(&(j, x, y, 99)), || format!("{} {} then {} {}, failing elsewhere", a.name, show(v), b.name, show(w)), |_| chain(&[(a, v), (b, w)], 2, 0x3c, 1));
                            }
                        }
                    }
                }
            }));
        }
        // Longer chains of representatives of every shape.
        let reps = ["()", "bool", "u8", "u16", "u128", "usize", "i32", "f64", "char", "NonZero<u16>", "SystemTime", "Duration", "IpAddr", "SocketAddr", "Option<char>", "Result<u64,u8>", "Bound<char>",
            "Range<usize>", "(u16,u8,u32)", "[u16;2]", "[(); 5]", "Vec<u8>", "Vec<()>", "Vec<String>", "LinkedList<u32>", "String", "CString", "Map<u8,u16>", "Set<char>", "SizedSlice<u8,4>", "SizedSlice<char,2>",
            "SizedStr<4>", "Nest", "Small", "Default16", "RefCell<u16>", "Mutex<u32>", "str", "CStr", "[usize]", "Box<[u16]>"];
        let reps: Rc<Vec<usize>> = Rc::new(reps.iter().filter_map(|n| all.iter().position(|e| e.0.name == n.replace(' ', ""))).collect());
        assert!(reps.len() >= 38, "representatives are missing");
        for i in 0..reps.len() {
            let (all, reps) = (all.clone(), reps.clone());
            s.push(section(format!("chains from {}", all[reps[i]].0.name), move |cx| {
                let n = reps.len();
                let pick = |k: usize, x: usize| { let (e, v) = &all[reps[k]]; (e, &v[x % v.len()]) };
                for j in 0..n { for k in 0..n {
                    cx.case(fp_of(&(j, k)), || format!("{} then {} then {}", pick(i, 0).0.name, pick(j, 0).0.name, pick(k, 0).0.name), |_| {
                        chain(&[pick(i, 0), pick(j, 1), pick(k, 2)], 1, 0xa5, 0)
                    });
                    let deep = if cx.thorough { n } else { 6 };
                    for l in 0..deep {
                        let l = (l * 7 + 3) % n;
                        cx.case(fp_of(&(j, k, l)), || format!("{} then {} then {} then {}", pick(i, 0).0.name, pick(j, 0).0.name, pick(k, 0).0.name, pick(l, 0).0.name), |_| {
                            chain(&[pick(i, 1), pick(j, 0), pick(k, 1), pick(l, 0)], 0, 0x00, 0)
                        });
                    }
                } }
                // The same again and again.
                for n in 0..20 {
                    cx.case(fp_of(&(n, "rep")), || format!("{n} times {}", pick(i, 0).0.name), |_| {
                        let es: Vec<_> = (0..n).map(|x| pick(i, x)).collect();
                        chain(&es, n, 0x77, 2)
                    });
                }
            }));
        }
        s
    });
}
