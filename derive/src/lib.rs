//! What the generated programs (tools/mkderive.py) share.

pub use oct::decode::{Decode, Input};
pub use oct::encode::{Encode, Output, SizedEncode};
pub use vh::err::{DecErr, EncErr, Norm};
pub use vh::model::{Ty, Val};
pub use vh::reg::{enc, form, Entry};
pub use vh::subj::{list, Sub};

use vh::codec::*;
use vh::cx::*;
use vh::gen::{bad_values, biggest, values};
use vh::judge::*;
use vh::model::*;
use vh::{bad, ensure};

/// The next field of a value.
pub fn next<S: Sub>(l: &mut std::slice::Iter<Val>) -> S { S::build(l.next().unwrap()) }

fn light(name: String, ty: Ty) -> Entry {
    Entry { name, ty, max: None, enc: Box::new(|_, _| unreachable!()), dec: None, again: None, slot: None, why_enc: None, why_dec: None, canon: Box::new(Val::clone), heavy: false }
}

/// With an explicit type, for recursive definitions.
pub fn of<T: Sub + Encode<Error: EncErr> + Decode<Error: DecErr> + 'static>(name: &str, ty: Ty) -> Entry {
    Entry {
        enc: Box::new(|v, o| T::build(v).encode(o).map_err(Norm::norm)),
        dec: Some(Box::new(|i| T::decode(i).map(|v| v.val()).map_err(Norm::norm))),
        ..light(name.to_string(), ty)
    }
}
pub fn unsized_<T: Sub + Encode<Error: EncErr> + Decode<Error: DecErr> + 'static>(name: &str) -> Entry { of::<T>(name, T::ty()) }
pub fn sized<T: Sub + Encode<Error: EncErr> + Decode<Error: DecErr> + SizedEncode + 'static>(name: &str) -> Entry {
    Entry { max: Some(T::MAX_ENCODED_SIZE), ..unsized_::<T>(name) }
}

/// The maximum is that of the model and holds.
fn maximum(cx: &mut Cx, e: &Entry) {
    let Some(max) = e.max else { return };
    let hi = sizes(&e.ty).1;
    cx.case(fp_of(&(&e.name, "max")), || format!("{} declares {max}", e.name), |_| {
        let Some(hi) = hi else { bad!(format!("{}: maximum", e.name), "{max}, but has no bound") };
        ensure!(max == hi, format!("{}: maximum", e.name), "declared {max} instead of {hi}");
        within(e, &biggest(&e.ty), max)?;
        Ok("maximum")
    });
}

/// Everything about one definition.
fn definition(cx: &mut Cx, e: &Entry, recursive: bool) {
    let empty = matches!(&e.ty, Ty::Enum(_, v) if v.is_empty());
    let only_maximum = std::env::var("VH_PART").is_ok_and(|p| p == "maximum");
    if !empty {
        maximum(cx, e);
        if only_maximum {
            let Some(max) = e.max else { return };
            for v in values(&e.ty, 1) {
                cx.case(fp_of(&(&e.name, &v)), || format!("{} {}", e.name, show(&v)), |_| within(e, &v, max).map(|_| "within"));
            }
        }
    }
    if only_maximum { return }
    if !empty {
        for v in values(&e.ty, if cx.thorough { 2 } else { 1 }) {
            cx.case(fp_of(&(&e.name, &v)), || format!("{} {}", e.name, show(&v)), |_| {
                format(e, &v, 0xa5, 32)?;
                if e.dec.is_some() {
                    let mut m = Vec::new();
                    encode(&e.ty, &v, &mut m).unwrap();
                    let n = m.len();
                    let want = decode(&e.ty, &mut Bytes::new(&m)).map_err(|_| RefErr::Refuse);
                    m.extend([0x5a; 64]);
                    decodes(e, &m, n, &want)?;
                }
                Ok("round trip")
            });
        }
        for v in bad_values(&e.ty, 1) {
            cx.case(fp_of(&(&e.name, &v)), || format!("{} {}", e.name, show(&v)), |_| refused(e, &v));
        }
    }
    if e.dec.is_none() || recursive { return }
    let (devs, points) = if cx.thorough { (2, 6) } else { (1, 12) };
    let mut a = Ample::new(0x11, 1 << 15);
    sequences(&e.ty, devs, points, 1, |data, want| {
        cx.case(fp_of(&(&e.name, data)), || format!("{} from {}", e.name, hex(data)), |_| a.with(data, |b| decodes(e, b, data.len(), &want)));
    });
}

/// A list of definitions: its name, its entries, and whether they are recursive.
pub type Group = (&'static str, fn() -> Vec<Entry>, bool);

pub fn main(groups: Vec<Group>) {
    run(move || {
        groups.into_iter().map(|(name, f, recursive)| section(name, move |cx| {
            for e in f() { definition(cx, &e, recursive) }
        })).collect()
    });
}
