//! C01: every value survives encoding and decoding.

use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::gen::values;
use vh::model::*;
use vh::reg::{self, Entry};
use vh::{bad, ensure};

fn round_trip(e: &Entry, v: &Val, fill: u8) -> CaseResult {
    let mut m = Vec::new();
    if encode(&e.ty, v, &mut m).is_err() { bad!(format!("{}: model", e.name), "not encodable: harness") }
    let enc = encode_real(e, v, m.len() + 32, fill);
    match &enc.res {
        Err(p) => bad!(format!("{}: encoding panics", e.name), "{p}"),
        Ok(Err(x)) => bad!(format!("{}: encoding refused", e.name), "{x:?}"),
        Ok(Ok(())) => {}
    }
    let mut data = enc.bytes().to_vec();
    let n = data.len();
    let want = norm(&e.ty, &lossy(&e.ty, v));
    // The encoding on its own, and followed by other bytes.
    for more in [0usize, 24] {
        data.resize(n + more, fill);
        let dec = decode_around(e, &data, fill);
        let got = match dec.res {
            Err(p) => bad!(format!("{}: decoding panics", e.name), "{} before {more} bytes panics: {p}", hex(&data[..n])),
            Ok(Err(x)) => bad!(format!("{}: decoding refused", e.name), "{} before {more} bytes gives {x:?}", hex(&data[..n])),
            Ok(Ok(v)) => v,
        };
        ensure!(norm(&e.ty, &got) == want, format!("{}: different value", e.name), "{} before {more} bytes decodes to {} instead of {}", hex(&data[..n]), show(&got), show(&want));
        ensure!(dec.pos == n, format!("{}: consumed", e.name), "consumed {} of {n} bytes {}, {more} bytes follow", dec.pos, hex(&data[..n]));
    }
    Ok(if n == 0 { "empty encoding" } else { "round trip" })
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            if e.dec.is_none() { continue }
            let e = Rc::new(e);
            let f = e.clone();
            s.push(section(format!("values of {}", e.name), move |cx| {
                let lvl = if f.heavy { 1 } else { 3 + (cx.thorough || matches!(f.ty, Ty::Char)) as u32 };
                for v in values(&f.ty, lvl) {
                    cx.case(fp_of(&v), || format!("{} {}", f.name, show(&v)), |_| round_trip(&f, &v, 0xa5));
                    if !matches!(f.ty, Ty::Char) {
                        cx.case(fp_of(&(&v, 1)), || format!("{} {} amid zeros", f.name, show(&v)), |_| round_trip(&f, &v, 0));
                    }
                }
            }));
        }
        // Every length of the counted forms.
        for e in reg::all() {
            let elem = match &e.ty { Ty::Seq(t, _) if matches!(**t, Ty::UInt(1) | Ty::Unit) => Some((**t).clone()), _ => None };
            let kind = e.ty.clone();
            let is_str = matches!(kind, Ty::Str(_) | Ty::CStr);
            if e.dec.is_none() || (elem.is_none() && !is_str) { continue }
            let cap = match kind { Ty::Seq(_, c) | Ty::Str(c) => c.unwrap_or(65535).min(65535), _ => 65535 };
            let e = Rc::new(e);
            s.push(section(format!("lengths of {}", e.name), move |cx| {
                let step = |n: usize| -> bool {
                    cx.thorough && (n % 7 == 0 || !e.heavy) || n <= 600 || n.count_ones() <= 1 || (n + 1).count_ones() <= 1 || (n - 1).count_ones() <= 1 || n >= cap - 2 || n % 4099 == 0
                };
                let todo: Vec<usize> = (0..=cap).filter(|n| (!e.heavy || *n < 40 || *n > 65000 || cx.thorough) && step(*n)).collect();
                for n in todo {
                    let v = match (&e.ty, &elem) {
                        (_, Some(Ty::Unit)) => Val::L(vec![Val::Unit; n]),
                        (_, Some(_)) => Val::L((0..n).map(|i| Val::U(((i * 31 + i / 256) % 256) as u128)).collect()),
                        (Ty::CStr, _) => Val::Z((0..n).map(|i| (i % 255) as u8 + 1).collect()),
                        _ => Val::S((0..n).map(|i| char::from(b'!' + (i % 90) as u8)).collect()),
                    };
                    cx.case(n as u64, || format!("{} of length {n}", e.name), |_| round_trip(&e, &v, 0x33));
                }
            }));
        }
        s.extend(vh::odd::sections());
        // All bit patterns of 32-bit scalars.
        s.extend(sweep32());
        s
    });
}

/// Thorough: all 2^32 values of the 32-bit scalars, in slices.
fn sweep32() -> Vec<Section> {
    use oct::decode::{Decode, Input};
    use oct::encode::{Encode, Output};
    if !std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough") { return vec![] }
    macro_rules! sweep { ($s:ident, $name:literal, $t:ty, $from:expr, $to:expr) => {
        for part in 0..64u64 {
            $s.push(section(format!("all of {} part {part}", $name), move |cx| {
                let lo = part << 26;
                for block in 0..(1u64 << 10) {
                    let start = lo + (block << 16);
                    cx.case_mono(start + 1, || format!("{} {start:#x} and the next 65535", $name), |_| {
                        for b in start..start + 65536 {
                            let b = b as u32;
                            let v: $t = $from(b);
                            let mut buf = [0xa5u8; 8];
                            let mut o = Output::new(&mut buf);
                            let Ok(()) = v.encode(&mut o);
                            let n = o.position();
                            if n != 4 || buf != [b as u8, (b >> 8) as u8, (b >> 16) as u8, (b >> 24) as u8, 0xa5, 0xa5, 0xa5, 0xa5] { bad!(format!("{}: bytes", $name), "{b:#x} encodes to {buf:?}") }
                            let mut i = Input::new(&buf);
                            let w = match <$t as Decode>::decode(&mut i) { Ok(w) => w, Err(_) => bad!(format!("{}: refused", $name), "{b:#x}") };
                            if $to(w) != b || i.position() != 4 { bad!(format!("{}: value", $name), "{b:#x} decodes to {:#x}", $to(w)) }
                        }
                        Ok("block of 65536")
                    });
                }
            }));
        }
    } }
    let mut s = Vec::new();
    sweep!(s, "u32", u32, |b| b, |v| v);
    sweep!(s, "i32", i32, |b| b as i32, |v| v as u32);
    sweep!(s, "f32", f32, f32::from_bits, f32::to_bits);
    sweep!(s, "Ipv4Addr", std::net::Ipv4Addr, std::net::Ipv4Addr::from_bits, std::net::Ipv4Addr::to_bits);
    s
}
