//! Histories of one task over cells.

use crate::chooser::explore;
use crate::cx::{section, Cx, Fp, Section};
use crate::*;
use oct::error::RefCellEncodeError;
use std::cell::{LazyCell, Ref, RefMut};

#[derive(Clone, Copy, Debug, PartialEq)]
enum C { Enc(Fault), Borrow, BorrowMut, DropFirst, DropLast, Set }

enum G<'a> { R(#[allow(dead_code)] Ref<'a, Probe>), W(RefMut<'a, Probe>) }

fn faults() -> Vec<Fault> { [Fault::No].into_iter().chain((0..3).flat_map(|i| [Fault::Err(i), Fault::Panic(i)])).collect() }

fn ref_cell(cx: &mut Cx, ops: &[C], depth: usize) {
    explore(|ch| {
        let hist: Vec<C> = (0..depth).map(|_| *ch.pick(ops)).collect();
        cx.transitions += depth as u64;
        cx.traces += 1;
        let fp = Fp::of(format!("{hist:?}").as_bytes());
        cx.case(fp, || format!("RefCell {hist:?}"), |_| {
            let c = RefCell::new(Probe::new(3, 4));
            let mut gs: Vec<G> = vec![];
            let mut val = [3, 4];
            for (i, op) in hist.iter().enumerate() {
                let writer = gs.iter().any(|g| matches!(g, G::W(_)));
                match *op {
                    C::Enc(f) => {
                        let borrow = Cell::new(false);
                        let how = attempt(f, |o| RefCell::<Probe>::encode(&c, o).map_err(|e| match e {
                            RefCellEncodeError::BadValue(e) => e,
                            RefCellEncodeError::BadBorrow(_) => { borrow.set(true); PErr(77) }
                        }));
                        let ok = match (writer, f, how) {
                            (true, _, How::Refused(77)) => borrow.get(),
                            (true, ..) => false,
                            (_, Fault::No, How::Done(b, 2)) => b[..2] == val,
                            (_, Fault::Err(i), How::Refused(j)) => i == j && !borrow.get(),
                            (_, Fault::Panic(i), How::Died(j)) => i == j,
                            _ => false,
                        };
                        if !ok { bad!("RefCell: the encoding does not end as it has to", "{op:?} gave {how:?} (mutably borrowed: {writer}, value {val:?})") }
                    }
                    C::Borrow => if let Ok(g) = c.try_borrow() { gs.push(G::R(g)) },
                    C::BorrowMut => if let Ok(g) = c.try_borrow_mut() { gs.push(G::W(g)) },
                    C::DropFirst => if !gs.is_empty() { gs.remove(0); },
                    C::DropLast => { gs.pop(); }
                    C::Set => if let Some(G::W(g)) = gs.last_mut() { val = [20 + i as u8, 40 + i as u8]; **g = Probe::new(val[0], val[1]); },
                }
                let writer = gs.iter().any(|g| matches!(g, G::W(_)));
                ensure!(c.try_borrow().is_ok() != writer, "RefCell: encoding changes the borrow state", "mutably borrowed: {writer}");
                ensure!(c.try_borrow_mut().is_ok() == gs.is_empty(), "RefCell: encoding changes the borrow state", "{} borrows", gs.len());
                if !writer { ensure!(c.borrow().get() == val, "RefCell: encoding changes the value", "{:?} instead of {val:?}", c.borrow().get()) }
            }
            Ok("held")
        });
    });
}

thread_local! {
    /// What a value looks at while it is encoded.
    static OUTER: RefCell<Option<Rc<dyn Look>>> = const { RefCell::new(None) };
    static LOOKS: RefCell<Vec<(bool, bool)>> = const { RefCell::new(vec![]) };
}
trait Look { fn look(&self) -> (bool, bool); }
/// Looks at the cell that holds it, before, between and after its bytes.
struct Inside(Probe);
impl Encode for Inside {
    type Error = PErr;
    fn encode(&self, o: &mut Output) -> Result<(), PErr> {
        let look = || OUTER.with_borrow(|c| if let Some(c) = c { let l = c.look(); LOOKS.with_borrow_mut(|v| v.push(l)) });
        look();
        self.0.encode(o)?;
        look();
        Ok(())
    }
}
/// Whether it can be borrowed, and mutably. (Apart: a guard of the one would be
/// in the way of the other.)
fn look_at<T: ?Sized>(c: &RefCell<T>) -> (bool, bool) {
    let shared = c.try_borrow().is_ok();
    let alone = c.try_borrow_mut().is_ok();
    (shared, alone)
}
impl Look for RefCell<Inside> { fn look(&self) -> (bool, bool) { look_at(self) } }
impl Look for RefCell<Option<Inside>> { fn look(&self) -> (bool, bool) { look_at(self) } }
impl Look for RefCell<Vec<Inside>> { fn look(&self) -> (bool, bool) { look_at(self) } }
impl Look for RefCell<[Inside; 2]> { fn look(&self) -> (bool, bool) { look_at(self) } }

/// While a cell is encoded, it is borrowed, and not mutably.
fn while_encoding<T: Encode + 'static>(cx: &mut Cx, what: &str, new: impl Fn() -> T, n: u8) where RefCell<T>: Look {
    let mut fs = vec![Fault::No];
    for i in 0..3 * n { fs.extend([Fault::Err(i), Fault::Panic(i)]) }
    for f in fs { for held in [false, true] {
        cx.transitions += 2;
        cx.traces += 1;
        cx.case(Fp::of(format!("{what} {f:?} {held}").as_bytes()), || format!("RefCell<{what}> looked at while {f:?}, already borrowed: {held}"), |_| {
            let c = Rc::new(RefCell::new(new()));
            OUTER.set(Some(c.clone()));
            LOOKS.take();
            let g = held.then(|| c.borrow());
            attempt_any(f, |o| c.encode(o).is_ok());
            drop(g);
            OUTER.set(None);
            let l = LOOKS.take();
            ensure!(!l.is_empty() && l.iter().all(|l| *l == (true, false)), "RefCell: not borrowed while it is encoded", "{l:?}");
            ensure!(c.try_borrow_mut().is_ok(), "RefCell: encoding changes the borrow state", "{f:?}");
            Ok("held")
        });
    } }
}
fn attempt_any(f: Fault, g: impl FnOnce(&mut Output) -> bool) -> Option<bool> {
    plan(f);
    let mut buf = [0xAA; 16];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g(&mut Output::new(&mut buf))));
    plan(Fault::No);
    r.ok()
}

/// A value that can be copied.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Dot(u8, u8);
impl Encode for Dot {
    type Error = PErr;
    fn encode(&self, o: &mut Output) -> Result<(), PErr> { Probe::new(self.0, self.1).encode(o) }
}

pub fn sections(out: &mut Vec<Section>) {
    out.push(section("RefCell", |cx| {
        let mut ops = vec![C::Borrow, C::BorrowMut, C::DropFirst, C::DropLast, C::Set];
        ops.extend(faults().into_iter().map(C::Enc));
        for d in 1..=if cx.thorough { 5 } else { 4 } { ref_cell(cx, &ops, d) }
        ops.truncate(8);
        ref_cell(cx, &ops, if cx.thorough { 7 } else { 5 });
    }));
    out.push(section("RefCell while it is encoded", |cx| {
        let p = |i| Inside(Probe::new(i, i + 1));
        while_encoding(cx, "value", || p(1), 1);
        while_encoding(cx, "Option", || Some(p(1)), 1);
        while_encoding(cx, "Vec", || vec![p(1), p(5), p(7)], 3);
        while_encoding(cx, "[_; 2]", || [p(1), p(5)], 2);
    }));
    out.push(section("Cell", |cx| {
        let fs = faults();
        explore(|ch| {
            let hist: Vec<(Fault, bool)> = (0..4).map(|_| (*ch.pick(&fs), ch.flag())).collect();
            cx.traces += 1;
            let fp = Fp::of(format!("{hist:?}").as_bytes());
            cx.case(fp, || format!("Cell {hist:?}"), |_| {
                let c = Cell::new(Dot(3, 4));
                let mut val = Dot(3, 4);
                for (i, (f, set)) in hist.iter().enumerate() {
                    if *set { val = Dot(i as u8 + 30, i as u8 + 60); c.set(val) }
                    let how = attempt(*f, |o| Cell::<Dot>::encode(&c, o));
                    let ok = match (*f, how) {
                        (Fault::No, How::Done(b, 2)) => b[..2] == [val.0, val.1],
                        (Fault::Err(i), How::Refused(j)) | (Fault::Panic(i), How::Died(j)) => i == j,
                        _ => false,
                    };
                    ensure!(ok, "Cell: the encoding does not end as the value's", "{f:?} gave {how:?}");
                    ensure!(c.get() == val, "Cell: encoding changes the value", "{:?} instead of {val:?}", c.get());
                }
                Ok("held")
            });
        });
    }));
    out.push(section("LazyCell", |cx| {
        let mut ops: Vec<Option<Fault>> = faults().into_iter().map(Some).collect();
        ops.push(None);
        let depth = if cx.thorough { 5 } else { 4 };
        explore(|ch| {
            let dies = ch.flag();
            let hist: Vec<Option<Fault>> = (0..depth).map(|_| *ch.pick(&ops)).collect();
            cx.traces += 1;
            let fp = Fp::of(format!("{hist:?}{dies}").as_bytes());
            cx.case(fp, || format!("LazyCell {hist:?} init {}", if dies { "panics" } else { "works" }), |_| {
                reset_init(dies);
                let c: LazyCell<Probe> = LazyCell::new(init);
                for op in &hist {
                    let f = op.unwrap_or(Fault::No);
                    let how = attempt(f, |o| match op {
                        Some(_) => LazyCell::<Probe>::encode(&c, o),
                        None => { o.write(&LazyCell::force(&c).get()).unwrap(); Ok(()) }
                    });
                    let ok = match (dies, f, how) {
                        (true, _, How::Died(50) | How::Other) => true,
                        (true, ..) => false,
                        (_, Fault::No, How::Done(b, 2)) => b[..2] == [1, 2],
                        (_, Fault::Err(i), How::Refused(j)) | (_, Fault::Panic(i), How::Died(j)) => i == j,
                        _ => false,
                    };
                    ensure!(ok, "LazyCell: the encoding does not end as the value's", "{op:?} gave {how:?}");
                    ensure!(inits() == 1, "LazyCell: initialised more than once", "{} times", inits());
                }
                Ok("held")
            });
        });
    }));
}
