//! C06: truncated input and short output never pass unnoticed.

use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::gen::values;
use vh::model::*;
use vh::reg::{self, Entry};
use vh::ensure;

fn cuts(n: usize) -> Vec<usize> {
    if n <= 80 { return (0..n).collect() }
    (0..40).chain((40..n - 20).step_by(n.div_ceil(40))).chain(n - 20..n).collect()
}

fn short_input(e: &Entry, data: &[u8], k: usize) -> CaseResult {
    let a = decode_around(e, &data[..k], 0x00);
    let b = decode_around(e, &data[..k], 0xff);
    // What follows the input in memory is what would make it complete.
    let mut all = data.to_vec();
    all.extend([0x41; 16]);
    let mut i = oct::decode::Input::new(&all[..k]);
    let c = decode_in(e, &mut i);
    for d in [&a, &b, &c] {
        ensure!(!matches!(d.res, Ok(Ok(_))), format!("{}: truncated input passes", e.name), "{k} of {} bytes {} give {:?}", data.len(), hex(data), d.res);
        ensure!(d.sane, format!("{}: input broken", e.name), "after {k} of {} bytes {}: position {}", data.len(), hex(data), d.pos);
    }
    ensure!(a.res.is_err() == b.res.is_err() && a.res.as_ref().ok() == b.res.as_ref().ok() && a.pos == b.pos && a.res.as_ref().ok() == c.res.as_ref().ok() && a.pos == c.pos,
        format!("{}: depends on bytes outside", e.name), "{:?} or {:?} or {:?}", a.res, b.res, c.res);
    Ok(if a.res.is_err() { "decoding panics" } else { "decoding refuses" })
}

fn short_output(e: &Entry, v: &Val, k: usize, n: usize) -> CaseResult {
    for fill in [0x00, 0xff] {
        let r = encode_real(e, v, k, fill);
        ensure!(!r.ok(), format!("{}: short output passes", e.name), "{k} of {n} bytes suffice: {}", hex(&r.buf));
        ensure!(!r.smashed, format!("{}: writes outside", e.name), "capacity {k} of {n}");
        ensure!(r.sane, format!("{}: output broken", e.name), "capacity {k} of {n}: position {}", r.pos);
    }
    Ok("encoding fails")
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            let e = Rc::new(e);
            let f = e.clone();
            s.push(section(format!("cuts of {}", e.name), move |cx| {
                let e = &f;
                let lvl = if cx.thorough && !e.heavy { 2 } else { 1 };
                let vs = values(&e.ty, lvl);
                let limit = if cx.thorough { 20_000 } else { 1500 };
                let step = vs.len().div_ceil(limit);
                for v in vs.iter().step_by(step) {
                    let mut m = Vec::new();
                    encode(&e.ty, v, &mut m).unwrap();
                    for k in cuts(m.len()) {
                        if e.dec.is_some() { cx.case(fp_of(&(&m, k)), || format!("{} from {k} bytes of {}", e.name, hex(&m)), |_| short_input(e, &m, k)); }
                        cx.case(fp_of(&(v, k, 1)), || format!("{} {} into {k} bytes", e.name, show(v)), |_| short_output(e, v, k, m.len()));
                    }
                }
            }));
            if e.dec.is_none() || e.heavy { continue }
            s.push(section(format!("cut sequences of {}", e.name), move |cx| {
                let (devs, points, lvl) = bounds(&e, cx.thorough);
                let points = points.min(12);
                let devs = if cx.thorough { devs.min(2) } else { 1 };
                sequences(&e.ty, devs, points, lvl.min(1), |data, want| {
                    // Every byte of an explored sequence is looked at; what
                    // refuses it may do so before the end.
                    for k in cuts(data.len()) {
                        cx.case(fp_of(&(data, k)), || format!("{} from {k} bytes of {}", e.name, hex(data)), |cx| {
                            if want.is_err() { cx.trivial() }
                            short_input(&e, data, k)
                        });
                    }
                });
                // Long counts with little behind them.
                if matches!(e.ty, Ty::Seq(..) | Ty::Str(_) | Ty::CStr | Ty::Map(..) | Ty::Set(_)) {
                    for n in [1u16, 5, 255, 256, 257, 4096, 0x7fff, 0x8000, 0xff00, 0xffff] {
                        for have in 0..24usize {
                            let mut data = n.to_le_bytes().to_vec();
                            data.extend((0..have).map(|i| b'a' + i as u8));
                            // Complete by accident, or without any bytes at all?
                            let mut src = Bytes::new(&data);
                            if decode(&e.ty, &mut src).is_ok() { continue }
                            cx.case(fp_of(&(n, have, "long")), || format!("{} of count {n} with {have} bytes", e.name), |_| {
                                let a = decode_around(&e, &data, 0x00);
                                let b = decode_around(&e, &data, 0x61);
                                for d in [&a, &b] {
                                    ensure!(!matches!(d.res, Ok(Ok(_))), format!("{}: truncated input passes", e.name), "{} gives {:?}", hex(&data), d.res);
                                    ensure!(d.sane, format!("{}: input broken", e.name), "after {}", hex(&data));
                                }
                                ensure!(a.res.as_ref().ok() == b.res.as_ref().ok() && a.pos == b.pos, format!("{}: depends on bytes outside", e.name), "{:?} or {:?}", a.res, b.res);
                                Ok("long count")
                            });
                        }
                    }
                }
            }));
        }
        s
    });
}
