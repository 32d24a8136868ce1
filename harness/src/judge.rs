//! Judgements of single encodings and decodings, shared by several checks.

use crate::codec::*;
use crate::cx::*;
use crate::model::*;
use crate::reg::Entry;
use crate::{bad, ensure};
use oct::decode::Input;

/// The value encodes to exactly the documented bytes.
pub fn format(e: &Entry, v: &Val, fill: u8, extra: usize) -> CaseResult {
    let mut m = Vec::new();
    if encode(&e.ty, v, &mut m).is_err() { bad!(format!("{}: model", e.name), "not encodable: harness") }
    let enc = encode_real(e, v, m.len() + extra, fill);
    match &enc.res {
        Err(p) => bad!(format!("{}: encoding panics", e.name), "{p}"),
        Ok(Err(x)) => bad!(format!("{}: encoding refused", e.name), "{x:?}"),
        Ok(Ok(())) => {}
    }
    ensure!(enc.pos == m.len(), format!("{}: length", e.name), "{} bytes written ({}) instead of {} ({})", enc.pos, hex(enc.bytes()), m.len(), hex(&m));
    ensure!(encodes(&e.ty, v, enc.bytes()), format!("{}: bytes", e.name), "written {} instead of {}", hex(enc.bytes()), hex(&m));
    ensure!(enc.buf[enc.pos..].iter().all(|b| *b == fill) && !enc.smashed, format!("{}: beyond", e.name), "bytes beyond the encoding changed: {}", hex(&enc.buf));
    ensure!(enc.sane, format!("{}: stream", e.name), "position, remaining and capacity disagree");
    Ok(if m.is_empty() { "nothing to write" } else { "documented bytes" })
}

/// The value fits in the maximum.
pub fn within(e: &Entry, v: &Val, max: usize) -> Result<usize, Bad> {
    let enc = encode_real(e, v, max, 0x5a);
    match &enc.res {
        Err(p) => bad!(format!("{}: maximum does not suffice", e.name), "maximum {max}: encoding panics: {p}"),
        Ok(Err(x)) => bad!(format!("{}: refused", e.name), "{x:?}"),
        Ok(Ok(())) => {}
    }
    ensure!(enc.pos <= max && !enc.smashed, format!("{}: maximum exceeded", e.name), "{} bytes, maximum {max}", enc.pos);
    let (lo, _) = sizes(&e.ty);
    ensure!(enc.pos >= lo, format!("{}: below the least size", e.name), "{} bytes, least {lo}", enc.pos);
    if let Some(slot) = &e.slot {
        let (n, r) = slot(v, max);
        let want = norm(&e.ty, &lossy(&e.ty, v));
        match r {
            Ok(g) => ensure!(norm(&e.ty, &g) == want && n == enc.pos, format!("{}: slot of the maximum", e.name), "{} of {n} bytes", show(&g)),
            Err(x) => bad!(format!("{}: slot of the maximum", e.name), "{x:?}"),
        }
    }
    Ok(enc.pos)
}

/// Decoding `b` consumes `n` bytes and gives what is wanted.
pub fn decodes(e: &Entry, b: &[u8], n: usize, want: &Result<Val, RefErr>) -> CaseResult {
    let mut i = Input::new(b);
    let d = decode_in(e, &mut i);
    ensure!(d.sane, format!("{}: stream", e.name), "position, remaining and capacity disagree after {}", hex(&b[..n]));
    match (d.res, want) {
        (Err(p), Err(RefErr::Refuse)) => bad!(format!("{}: panics instead of refusing", e.name), "{}: {p}", hex(&b[..n])),
        (Err(p), _) => bad!(format!("{}: panics", e.name), "{}: {p}", hex(&b[..n])),
        (Ok(Ok(g)), Ok(w)) => {
            ensure!(norm(&e.ty, &g) == norm(&e.ty, w), format!("{}: value", e.name), "{} gives {} instead of {}", hex(&b[..n]), show(&g), show(w));
            ensure!(d.pos == n, format!("{}: consumed", e.name), "{}: {} instead of {n} bytes", hex(&b[..n]), d.pos);
            Ok("accepted")
        }
        (Ok(Err(x)), Err(w)) => {
            ensure!(x == *w || *w == RefErr::Refuse, format!("{}: error", e.name), "{} gives {x:?} instead of {w:?}", hex(&b[..n]));
            Ok("refused")
        }
        (Ok(Ok(g)), Err(w)) => bad!(format!("{}: invalid sequence accepted", e.name), "{} gives {} instead of {w:?}", hex(&b[..n]), show(&g)),
        (Ok(Err(x)), Ok(w)) => bad!(format!("{}: valid sequence refused", e.name), "{} gives {x:?} instead of {}", hex(&b[..n]), show(w)),
    }
}

/// The value is refused with exactly the right error.
pub fn refused(e: &Entry, v: &Val) -> CaseResult {
    let canon = (e.canon)(v);
    let mut m = Vec::new();
    let Err(want) = encode(&e.ty, &canon, &mut m) else { bad!("harness", "encodable") };
    let r = encode_real(e, v, m.len() + (1 << 18), 0x5a);
    ensure!(!r.smashed && r.sane, format!("{}: output broken", e.name), "");
    match r.res {
        Err(p) => bad!(format!("{}: panics instead of refusing", e.name), "{p}"),
        Ok(Ok(())) => bad!(format!("{}: accepted", e.name), "written {} instead of {want:?}", hex(r.bytes())),
        Ok(Err(x)) => { ensure!(x == want, format!("{}: error", e.name), "{x:?} instead of {want:?}"); Ok("refused") }
    }
}

