//! C21: encoding what was decoded gives a canonical, stable sequence.

use oct::decode::Input;
use oct::encode::Output;
use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::model::*;
use vh::reg::{self, Entry};
use vh::{bad, ensure};

/// Decodes from `b` and encodes the very object; the bytes and the value.
fn again(e: &Entry, b: &[u8], room: usize) -> Result<(Vec<u8>, Val, usize), Bad> {
    let f = e.again.as_ref().unwrap();
    let mut out = vec![0xa5; room];
    let mut i = Input::new(b);
    let mut o = Output::new(&mut out);
    match guard(|| f(&mut i, &mut o)) {
        Err(p) => bad!(format!("{}: panics", e.name), "{p}"),
        Ok(Err(x)) => bad!(format!("{}: refuses its own encoding", e.name), "{x:?}"),
        Ok(Ok((_, Err(x)))) => bad!(format!("{}: decoded value is not encodable", e.name), "{x:?}"),
        Ok(Ok((v, Ok(())))) => { let n = i.position(); Ok((o.as_slice().to_vec(), v, n)) }
    }
}

fn has_spellings(ty: &Ty) -> bool {
    match ty {
        Ty::Bool | Ty::Opt(_) | Ty::Res(..) | Ty::Dur | Ty::Map(..) | Ty::Set(_) => true,
        Ty::NonZero(t) | Ty::Bound(t) | Ty::Arr(t, _) | Ty::Seq(t, _) | Ty::RefCell(t) => has_spellings(t),
        Ty::Tup(l) | Ty::Struct(l) => l.iter().any(has_spellings),
        Ty::Enum(_, l) => l.iter().any(|v| v.1.iter().any(has_spellings)),
        _ => false,
    }
}

fn check(e: &Entry, data: &[u8], b: &[u8], want: &Val) -> CaseResult {
    let n = data.len();
    let (one, v1, used) = again(e, b, n)?;
    ensure!(used == n, format!("{}: consumed", e.name), "{used} of {n}");
    ensure!(one.len() <= n, format!("{}: grows", e.name), "{n} bytes become {}", one.len());
    ensure!(norm(&e.ty, &v1) == norm(&e.ty, want), format!("{}: value", e.name), "{} instead of {}", show(&v1), show(want));
    ensure!(encodes(&e.ty, &v1, &one), format!("{}: not canonical", e.name), "{} becomes {}", hex(data), hex(&one));
    if !has_spellings(&e.ty) { ensure!(one == data, format!("{}: changed", e.name), "{} becomes {}", hex(data), hex(&one)) }
    let (two, v2, used) = again(e, &one, one.len())?;
    ensure!(used == one.len(), format!("{}: consumed", e.name), "{used} of {}", one.len());
    ensure!(norm(&e.ty, &v2) == norm(&e.ty, &v1), format!("{}: value changes", e.name), "{} then {}", show(&v1), show(&v2));
    if !unordered(&e.ty) { ensure!(two == one, format!("{}: not stable", e.name), "{} then {}", hex(&one), hex(&two)) }
    ensure!(two.len() == one.len() && encodes(&e.ty, &v1, &two), format!("{}: not stable", e.name), "{} then {}", hex(&one), hex(&two));
    Ok(if one == data { "canonical already" } else { "made canonical" })
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            if e.again.is_none() || e.heavy { continue }
            let e = Rc::new(e);
            s.push(section(format!("sequences of {}", e.name), move |cx| {
                let (devs, points, lvl) = bounds(&e, cx.thorough);
                let lvl = if cx.thorough { lvl } else { lvl.min(2 + matches!(e.ty, Ty::Char | Ty::UInt(_)) as u32) };
                let mut a = Ample::new(0x11, 1 << 17);
                sequences(&e.ty, devs, points, lvl, |data, want| {
                    let Ok(w) = want else { return };
                    cx.case(Fp::of(data), || format!("{} from {}", e.name, hex(data)), |_| a.with(data, |b| check(&e, data, b, &w)));
                });
            }));
        }
        s
    });
}
