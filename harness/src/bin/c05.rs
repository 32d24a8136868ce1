//! C05: decoders accept exactly the valid sequences.

use oct::decode::Input;
use std::rc::Rc;
use vh::codec::*;
use vh::gen::{late_places, values};
use vh::cx::*;
use vh::judge::*;
use vh::model::*;
use vh::reg;
use vh::bad;

/// Maps and sets of many different keys.
fn keys(ty: &Ty) -> Vec<Val> {
    let (Ty::Set(k) | Ty::Map(k, _)) = ty else { return vec![] };
    let mut out = Vec::new();
    for n in [15usize, 16, 17, 29, 64, 113, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4097, 65534, 65535] {
        let key = |i: usize| Some(match &**k {
            Ty::UInt(w) => if *w > 1 || i < 256 { Val::U(i as u128 * 40503 % if *w == 1 { 256 } else { 65536 }) } else { return None },
            Ty::Usize => Val::U((i * 40503 % 65536) as u128),
            Ty::Char => Val::C(char::from_u32(0xe000 + i as u32)?),
            Ty::Str(_) => if n <= 5000 { Val::S(format!("{i:x}é")) } else { return None },
            _ => return None,
        });
        let ks: Option<Vec<Val>> = (0..n).map(key).collect();
        let Some(ks) = ks else { continue };
        out.push(Val::L(match ty {
            Ty::Map(_, w) => { let ws = values(w, 1); ks.into_iter().enumerate().map(|(i, k)| Val::L(vec![k, ws[i % ws.len()].clone()])).collect() }
            _ => ks,
        }));
    }
    out
}

/// Long sequences in which one element, early or late, is refused.
fn late(ty: &Ty) -> Option<Vec<Vec<u8>>> {
    let mut out = Vec::new();
    let lens = |cap: Option<usize>| [20usize, 257, 300, 1030, 65535].into_iter().filter(move |n| cap.is_none_or(|c| c >= *n));
    let mut counted = |cap: Option<usize>, fixed: Option<usize>, at: &dyn Fn(usize) -> Vec<u8>, bad: &[Vec<u8>]| {
        let lens: Vec<usize> = match fixed { Some(n) => vec![n], None => lens(cap).collect() };
        for n in lens { for i in late_places(n) { for (k, b) in bad.iter().enumerate() {
            if n > 2000 && (k > 0 || (i > 20 && i < 250) || (i > 260 && i < 32000)) { continue }
            let mut v = if fixed.is_some() { vec![] } else { (n as u16).to_le_bytes().to_vec() };
            for j in 0..n { if j == i { v.extend(b) } else { v.extend(at(j)) } }
            out.push(v);
        } } }
    };
    // What is accepted and what is refused of a type.
    let parts = |t: &Ty| {
        let (mut good, mut bad) = (Vec::new(), Vec::<(RefErr, Vec<u8>)>::new());
        sequences(t, 1, 4, 0, |d, r| match r {
            Ok(_) => if good.len() < 3 { good.push(d.to_vec()) },
            Err(e) => if bad.len() < 2 && !bad.iter().any(|b| b.0 == e) { bad.push((e, d.to_vec())) },
        });
        (good, bad.into_iter().map(|b| b.1).collect::<Vec<_>>())
    };
    match ty {
        Ty::Seq(t, c) => { let (g, b) = parts(t); counted(*c, None, &|j| g[j % g.len()].clone(), &b) }
        Ty::Arr(t, n) => { let (g, b) = parts(t); counted(None, Some(*n), &|j| g[j % g.len()].clone(), &b) }
        Ty::Set(t) => { let (g, b) = parts(t); counted(Some(1030), None, &|j| g[j % g.len()].clone(), &b) }
        Ty::Map(k, w) => { let (g, b) = parts(&Ty::Tup(vec![(**k).clone(), (**w).clone()])); counted(Some(1030), None, &|j| g[j % g.len()].clone(), &b) }
        Ty::Str(c) => counted(*c, None, &|j| vec![b'a' + (j % 26) as u8], &[vec![0xff], vec![0x80], vec![0xc3], vec![0xe2, 0x82], vec![0xc3, 0xa9]]),
        Ty::CStr => counted(None, None, &|j| vec![255 - (j % 255) as u8], &[vec![0], vec![0, 0]]),
        _ => return None,
    }
    out.retain(|b| !b.is_empty());
    (!out.is_empty()).then_some(out)
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            if e.dec.is_none() || e.heavy { continue }
            let e = Rc::new(e);
            let f = e.clone();
            for fill in [0x11u8, 0xff] {
                let e = f.clone();
                s.push(section(format!("sequences of {} before {fill:02x}", e.name), move |cx| {
                    let (devs, points, lvl) = bounds(&e, cx.thorough);
                    let (devs, points, lvl) = if fill == 0xff { (devs.min(1), points, lvl.min(2)) } else { (devs, points, lvl) };
                    let mut a = Ample::new(fill, 1 << 17);
                    sequences(&e.ty, devs, points, lvl, |data, want| {
                        cx.case(Fp::of(data), || format!("{} from {}", e.name, hex(data)), |_| a.with(data, |b| decodes(&e, b, data.len(), &want)));
                    });
                }));
            }
            // Refusals late in long sequences.
            if let Some(l) = late(&f.ty) {
                let e = f.clone();
                s.push(section(format!("late refusals of {}", e.name), move |cx| for b in &l {
                    let mut src = Bytes::new(b);
                    let want = match decode(&e.ty, &mut src) { Ok(v) => Ok(v), Err(Fail::Err(x)) => Err(x), Err(_) => continue };
                    let used = src.pos;
                    let mut b = b.clone();
                    b.extend([0x11; 64]);
                    cx.case(Fp::of(&b), || format!("{} from {}", e.name, hex(&b)), |_| decodes(&e, &b, used, &want));
                }));
            }
            if matches!(&f.ty, Ty::Set(_) | Ty::Map(..)) {
                let e = f.clone();
                s.push(section(format!("different keys of {}", e.name), move |cx| for k in keys(&e.ty) {
                    let mut b = Vec::new();
                    if encode(&e.ty, &k, &mut b).is_err() { continue }
                    let used = b.len();
                    b.extend([0x11; 64]);
                    cx.case(Fp::of(&b), || format!("{} from {}", e.name, hex(&b)), |_| decodes(&e, &b, used, &Ok(k.clone())));
                }));
            }
            // All counts.
            if matches!(f.ty, Ty::Seq(..) | Ty::Str(_) | Ty::CStr) {
                let e = f.clone();
                s.push(section(format!("counts of {}", e.name), move |cx| {
                    let cap = match &e.ty { Ty::Seq(_, c) | Ty::Str(c) => *c, _ => None };
                    let cheap = matches!(&e.ty, Ty::Seq(t, _) if matches!(**t, Ty::UInt(1) | Ty::Unit)) || !matches!(e.ty, Ty::Seq(..));
                    // Refusing is quick, whatever the count.
                    let mut b = vec![b'A'; if cheap { 70_000 } else { 1 << 20 }];
                    for n in 0..=65535usize {
                        let over = cap.is_some_and(|c| n > c);
                        let odd = n <= if cheap || cap.is_some() { 300 } else { 40 } || (cheap && n % 4093 == 0) || [n, n + 1, n - 1].iter().any(|n| n.is_power_of_two()) || n > 65530;
                        if !over && !odd && !(cx.thorough && cheap && n % 5 == 0) { continue }
                        b[..2].copy_from_slice(&(n as u16).to_le_bytes());
                        let mut src = Bytes::new(&b);
                        let want = match decode(&e.ty, &mut src) { Ok(v) => Ok(v), Err(Fail::Err(x)) => Err(x), Err(_) => continue };
                        let used = src.pos;
                        cx.case(n as u64, || format!("{} with count {n}", e.name), |_| decodes(&e, &b, used, &want));
                    }
                }));
            }
        }
        if std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough") {
            use oct::decode::Decode;
            for part in 0..64u64 {
                s.push(section(format!("all 32-bit patterns as char, part {part}"), move |cx| {
                    for block in 0..(1u64 << 10) {
                        let start = (part << 26) + (block << 16);
                        cx.case_mono(start + 1, || format!("char {start:#x} and the next 65535"), |_| {
                            for b in start..start + 65536 {
                                let b = b as u32;
                                let buf = (b as u64 | 0x5a << 32).to_le_bytes();
                                let mut i = Input::new(&buf);
                                let valid = b <= 0x10ffff && !(0xd800..=0xdfff).contains(&b);
                                match char::decode(&mut i) {
                                    Ok(c) => if !valid || c as u32 != b || i.position() != 4 { bad!("char: sweep", "{b:#x} gives {:#x}", c as u32) },
                                    Err(x) => if valid || x.code_point != b { bad!("char: sweep", "{b:#x} refused with {:#x}", x.code_point) },
                                }
                                let mut i = Input::new(&buf);
                                match std::num::NonZero::<u32>::decode(&mut i) {
                                    Ok(c) => if c.get() != b { bad!("NonZero<u32>: sweep", "{b:#x}") },
                                    Err(_) => if b != 0 { bad!("NonZero<u32>: sweep", "{b:#x} refused") },
                                }
                            }
                            Ok("block of 65536")
                        });
                    }
                }));
            }
        }
        s
    });
}
