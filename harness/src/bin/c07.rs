//! C07: what the format cannot express is refused, exactly.

use oct::encode::{Encode, Output, SizedEncode};
use oct::SizedSlice;
use std::cell::{Cell, RefCell};
use std::collections::LinkedList;
use std::rc::Rc;
use std::sync::{Mutex, RwLock};
use vh::codec::*;
use vh::cx::*;
use vh::err::Norm;
use vh::gen::{bad_values, values};
use vh::judge::*;
use vh::model::*;
use vh::reg::{self, Entry};
use vh::{bad, ensure};

fn accepted(e: &Entry, v: &Val) -> CaseResult {
    let mut m = Vec::new();
    encode(&e.ty, v, &mut m).unwrap();
    let r = encode_real(e, v, m.len(), 0x5a);
    match r.res {
        Ok(Ok(())) => ensure!(encodes(&e.ty, v, r.bytes()), format!("{}: bytes", e.name), "{}", hex(r.bytes())),
        Ok(Err(x)) => bad!(format!("{}: refused", e.name), "{x:?}"),
        Err(p) => bad!(format!("{}: panics", e.name), "{p}"),
    }
    Ok("accepted")
}

/// Values at the very edge of the domain.
fn edges(ty: &Ty) -> Vec<Val> {
    let many = |t: &Ty, n: usize| values(t, 1).iter().cycle().take(n).cloned().collect::<Vec<_>>();
    let lens = |cap: Option<usize>| [65533usize, 65534, 65535].into_iter().filter(move |n| cap.is_none_or(|c| c >= *n));
    match ty {
        Ty::Seq(t, c) => lens(*c).map(|n| Val::L(many(t, n))).collect(),
        Ty::Str(c) => lens(*c).flat_map(|n| [Val::S("q".repeat(n)), Val::S("é".repeat(n / 2) + &"e".repeat(n % 2))]).collect(),
        Ty::CStr => lens(None).map(|n| Val::Z(vec![0xfe; n])).collect(),
        Ty::Map(k, w) if matches!(**k, Ty::UInt(2 | 4 | 8)) => { let w = values(w, 0).remove(0); lens(None).map(|n| Val::L((0..n as u128).map(|i| Val::L(vec![Val::U(i), w.clone()])).collect())).collect() }
        Ty::Set(k) if matches!(**k, Ty::UInt(2 | 4 | 8)) => lens(None).map(|n| Val::L((0..n as u128).map(Val::U).collect())).collect(),
        Ty::RefCell(t) | Ty::NonZero(t) => edges(t),
        Ty::Opt(t) => edges(t).into_iter().map(|v| opt(Some(v))).collect(),
        _ => vec![],
    }
}

// Reference cells.

#[derive(Encode, SizedEncode)]
struct Cells { a: u8, c: RefCell<u16>, d: RefCell<u8> }
#[derive(Encode, SizedEncode)]
#[repr(u8)]
enum CellEnum { #[allow(dead_code)] X, Y { k: u8, c: RefCell<u16> } }

/// How the cells of a subject are held while it is encoded.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Hold { Free, Shared, Mut }

fn hold<R>(cells: &[(&RefCell<u16>, Hold)], f: impl FnOnce() -> R) -> R {
    match cells.split_first() {
        None => f(),
        Some(((_, Hold::Free), rest)) => hold(rest, f),
        Some(((c, Hold::Shared), rest)) => { let g = c.borrow(); let r = hold(rest, f); drop(g); r }
        Some(((c, Hold::Mut), rest)) => { let g = c.borrow_mut(); let r = hold(rest, f); drop(g); r }
    }
}

fn item(i: usize, e: RefErr) -> RefErr { RefErr::BadItem(Box::new(RefErr::Item(i, Box::new(e)))) }

/// Encodes with the cells held in every possible way.
fn cells<T: Encode<Error: Norm> + ?Sized>(cx: &mut Cx, what: &str, v: &T, cs: &[&RefCell<u16>], err: impl Fn(usize) -> RefErr, bytes: &[u8]) {
    let ways = [Hold::Free, Hold::Shared, Hold::Mut];
    for k in 0..3usize.pow(cs.len() as u32) {
        let hs: Vec<(&RefCell<u16>, Hold)> = cs.iter().enumerate().map(|(i, c)| (*c, ways[k / 3usize.pow(i as u32) % 3])).collect();
        let want = match hs.iter().position(|h| h.1 == Hold::Mut) { Some(i) => Err(err(i)), None => Ok(()) };
        let tags: Vec<Hold> = hs.iter().map(|h| h.1).collect();
        cx.case(fp_of(&(what, k)), || format!("{what} held {tags:?}"), |_| {
            for _ in 0..2 {
                let r = hold(&hs, || encode_with(bytes.len() + 4, 0xa5, |o: &mut Output| v.encode(o).map_err(Norm::norm)));
                ensure!(!r.smashed && r.sane, format!("{what}: output broken"), "");
                match &r.res {
                    Err(p) => bad!(format!("{what}: panics"), "{p}"),
                    Ok(x) => ensure!(*x == want, format!("{what}: result"), "{x:?} instead of {want:?}"),
                }
                if want.is_ok() { ensure!(r.bytes() == bytes, format!("{what}: bytes"), "{}", hex(r.bytes())) }
            }
            // Every borrow is released again.
            for c in cs { ensure!(c.try_borrow_mut().is_ok(), format!("{what}: still borrowed"), "") }
            Ok(if want.is_ok() { "free or shared" } else { "mutably borrowed" })
        });
    }
}

fn ref_cells(cx: &mut Cx) {
    let c = |v: u16| RefCell::new(v);
    let b = RefErr::Borrow;
    let x = c(0x1234);
    cells(cx, "RefCell<u16>", &x, &[&x], |_| RefErr::Borrow, &[0x34, 0x12]);
    cells(cx, "&RefCell<u16>", &&x, &[&x], |_| RefErr::Borrow, &[0x34, 0x12]);
    let v = vec![c(1), c(2), c(3)];
    let l = &[3, 0, 1, 0, 2, 0, 3, 0];
    cells(cx, "Vec<RefCell<u16>>", &v, &[&v[0], &v[1], &v[2]], |i| item(i, RefErr::Borrow), l);
    cells(cx, "[RefCell<u16>]", &v[..], &[&v[0], &v[1], &v[2]], |i| item(i, RefErr::Borrow), l);
    let v = [c(1), c(2), c(3)];
    cells(cx, "[RefCell<u16>; 3]", &v, &[&v[0], &v[1], &v[2]], |i| item(i, RefErr::Borrow), &l[2..]);
    let v: SizedSlice<RefCell<u16>, 4> = [c(1), c(2), c(3)].into_iter().collect();
    cells(cx, "SizedSlice<RefCell<u16>, 4>", &v, &[&v[0], &v[1], &v[2]], |i| item(i, RefErr::Borrow), l);
    let v: LinkedList<RefCell<u16>> = [c(1), c(2), c(3)].into_iter().collect();
    let cs: Vec<&RefCell<u16>> = v.iter().collect();
    cells(cx, "LinkedList<RefCell<u16>>", &v, &cs, |i| item(i, RefErr::Borrow), l);
    let v = (c(1), c(2));
    cells(cx, "(RefCell<u16>, RefCell<u16>)", &v, &[&v.0, &v.1], |_| RefErr::Borrow, &[1, 0, 2, 0]);
    let v = Some(c(7));
    cells(cx, "Option<RefCell<u16>>", &v, &[v.as_ref().unwrap()], |_| RefErr::Borrow, &[1, 7, 0]);
    let v = Rc::new(c(7));
    cells(cx, "Rc<RefCell<u16>>", &v, &[&v], |_| RefErr::Borrow, &[7, 0]);
    let v = Box::new(c(7));
    cells(cx, "Box<RefCell<u16>>", &v, &[&v], |_| RefErr::Borrow, &[7, 0]);
    // A cell within a cell: the outer one is held through its own type.
    let v = RefCell::new(c(7));
    { let g = v.borrow(); cells(cx, "RefCell<RefCell<u16>>, inner", &v, &[&g], |_| RefErr::CellValue(Box::new(RefErr::Borrow)), &[7, 0]); }
    let v = RefCell::new(vec![c(1), c(2)]);
    { let g = v.borrow(); cells(cx, "RefCell<Vec<RefCell<u16>>>", &v, &[&g[0], &g[1]], |i| RefErr::CellValue(Box::new(item(i, RefErr::Borrow))), &[2, 0, 1, 0, 2, 0]); }
    cx.case(fp_of(&"outer"), || "RefCell<RefCell<u16>> with the outer one borrowed".into(), |_| {
        let v = RefCell::new(RefCell::new(7u16));
        let g = v.borrow_mut();
        let r = encode_with(8, 0, |o| v.encode(o).map_err(Norm::norm));
        drop(g);
        ensure!(r.res == Ok(Err(RefErr::Borrow)), "RefCell<RefCell<u16>>: outer", "{:?}", r.res);
        Ok("mutably borrowed")
    });
    let v = Cells { a: 5, c: c(0x0102), d: RefCell::new(9) };
    cells(cx, "derived struct", &v, &[&v.c], |_| RefErr::Gen(Box::new(RefErr::Borrow)), &[5, 2, 1, 9]);
    let v = CellEnum::Y { k: 3, c: c(0x0102) };
    let CellEnum::Y { c: inner, .. } = &v else { unreachable!() };
    cells(cx, "derived enum", &v, &[inner], |_| RefErr::Field(Box::new(RefErr::Gen(Box::new(RefErr::Borrow)))), &[1, 3, 2, 1]);
    let m = Mutex::new(0u8);
    let r = RwLock::new(());
    let _ = (m, r, b, Cell::new(0));
    let v = Mutex::new(&x);
    cells(cx, "Mutex<&RefCell<u16>>", &v, &[&x], |_| RefErr::Borrow, &[0x34, 0x12]);
    let v = RwLock::new(&x);
    cells(cx, "RwLock<&RefCell<u16>>", &v, &[&x], |_| RefErr::Borrow, &[0x34, 0x12]);
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        for e in reg::all() {
            let bad = if bad_values(&e.ty, 0).is_empty() { continue } else { Rc::new(e) };
            s.push(section(format!("outside of {}", bad.name), move |cx| {
                let e = &bad;
                let scalar = matches!(e.ty, Ty::Usize | Ty::Isize);
                for v in bad_values(&e.ty, if scalar { 2 } else { 1 }) {
                    cx.case(fp_of(&v), || format!("{} {}", e.name, show(&v)), |_| refused(e, &v));
                }
                for v in edges(&e.ty) { cx.case(fp_of(&v), || format!("{} {}", e.name, show(&v)), |_| accepted(e, &v)); }
                for v in values(&e.ty, if e.heavy { 1 } else if cx.thorough || scalar { 3 } else { 2 }) { cx.case(fp_of(&v), || format!("{} {}", e.name, show(&v)), |_| accepted(e, &v)); }
            }));
        }
        s.push(section("reference cells", ref_cells));
        s
    });
}
