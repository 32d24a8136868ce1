//! C03: the declared maximum size bounds every encoding, tightly.

use oct::decode::Input;
use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::gen::{biggest, values};
use vh::judge::*;
use vh::model::*;
use vh::reg;
use vh::{bad, ensure};

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            let e = Rc::new(e);
            let Some(max) = e.max else { continue };
            let f = e.clone();
            s.push(section(format!("maximum of {}", e.name), move |cx| {
                let e = &f;
                let (lo, hi) = sizes(&e.ty);
                cx.case(0, || format!("{} declares {max}", e.name), |_| {
                    let Some(hi) = hi else { bad!(format!("{}: unbounded", e.name), "has no bound in the model") };
                    ensure!(max >= hi, format!("{}: maximum too small", e.name), "declared {max}, values of up to {hi} bytes exist");
                    // Counts have 16 bits, whatever the capacity is.
                    if !e.heavy || hi < 65536 { ensure!(max == hi, format!("{}: maximum not attained", e.name), "declared {max}, no value exceeds {hi} bytes") }
                    Ok(if lo == hi { "fixed size" } else { "varying size" })
                });
                cx.case(1, || format!("{}: a biggest value", e.name), |_| {
                    let n = within(e, &biggest(&e.ty), max)?;
                    if !e.heavy || hi.unwrap() < 65536 { ensure!(n == max, format!("{}: maximum not attained", e.name), "the biggest value takes {n} of {max} bytes") }
                    Ok("attained")
                });
                let lvl = if e.heavy { 1 } else if cx.thorough { 3 } else { 2 };
                for v in values(&e.ty, lvl) {
                    cx.case(fp_of(&v), || format!("{} {}", e.name, show(&v)), |_| within(e, &v, max).map(|_| "within"));
                }
            }));
            if e.dec.is_none() || e.heavy { continue }
            s.push(section(format!("consumption of {}", e.name), move |cx| {
                let (devs, points, lvl) = bounds(&e, cx.thorough);
                let mut a = Ample::new(0x11, 1 << 17);
                sequences(&e.ty, devs, points, lvl.min(2), |data, _| {
                    cx.case(Fp::of(data), || format!("{} from {}", e.name, hex(data)), |_| {
                        a.with(data, |b| {
                            let mut i = Input::new(b);
                            let d = decode_in(&e, &mut i);
                            // What a refused sequence consumed is left open.
                            if matches!(d.res, Ok(Ok(_))) { ensure!(d.pos <= max, format!("{}: consumes more than the maximum", e.name), "{} bytes, maximum {max}, from {}", d.pos, hex(data)) }
                            Ok(if matches!(d.res, Ok(Ok(_))) { "accepted" } else { "refused" })
                        })
                    });
                });
            }));
        }
        s
    });
}
