//! C02: every value encodes to exactly the documented bytes.

use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::gen::values;
use vh::judge::*;
use vh::model::*;
use vh::reg;

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            let e = Rc::new(e);
            s.push(section(format!("bytes of {}", e.name), move |cx| {
                let lvl = if e.heavy { 1 } else { 3 + (cx.thorough || matches!(e.ty, Ty::Char)) as u32 };
                let fills: &[(u8, usize)] = &[(0xa5, 32), (0, 0), (0xff, 1)];
                for v in values(&e.ty, lvl) {
                    for (fill, extra) in fills {
                        if *fill == 0xff && matches!(e.ty, Ty::Char) { continue }
                        cx.case(fp_of(&(&v, fill)), || format!("{} {} over {fill:02x}, {extra} spare", e.name, show(&v)), |_| format(&e, &v, *fill, *extra));
                    }
                }
            }));
        }
        s
    });
}
