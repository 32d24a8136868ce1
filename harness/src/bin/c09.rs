//! C09: slots.

use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::{SizedSlice, SizedStr, Slot};
use std::borrow::{Borrow, BorrowMut};
use std::cell::RefCell;
use std::marker::PhantomData;
use vh::bfs::{merged, tree, Sys};
use vh::cx::*;
use vh::err::Norm;
use vh::gen::values;
use vh::model::*;
use vh::subj::Sub;
use vh::{bad, ensure};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Make { Capacity, Raw(usize) }

struct SlotSys<T> { cap: usize, vals: Vec<Val>, make: Make, rich: bool, p: PhantomData<T> }
struct Real<T> { slot: Slot<T>, ptr: *const u8 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model { buf: Vec<u8>, len: usize }
#[derive(Clone, Debug)]
enum Op { Write(usize), WriteRef(usize), Read, SetLen(usize), Unchecked(usize), Copy(usize, u8), Poke(usize, u8, u8), Fill(u8) }

impl<T: Sub + Encode<Error: Norm> + Decode<Error: Norm>> Sys for SlotSys<T> {
    type Real = Real<T>;
    type Model = Model;
    type Op = Op;
    fn start(&self) -> (Real<T>, Model) {
        match self.make {
            Make::Capacity => {
                let slot = Slot::with_capacity(self.cap);
                let ptr = slot.as_ptr();
                (Real { slot, ptr }, Model { buf: vec![0; self.cap], len: 0 })
            }
            Make::Raw(len) => {
                let buf: Vec<u8> = (0..self.cap).map(|i| 0x40 + i as u8).collect();
                let ptr = Box::into_raw(buf.clone().into_boxed_slice()) as *mut u8;
                let slot = unsafe { Slot::from_raw_parts(ptr, self.cap, len) };
                (Real { slot, ptr }, Model { buf, len })
            }
        }
    }
    fn ops(&self, m: &Model) -> Vec<Op> {
        let mut v: Vec<Op> = (0..self.vals.len()).map(Op::Write).collect();
        v.push(Op::Read);
        for n in 0..=self.cap + 2 { v.push(Op::SetLen(n)); v.push(Op::Copy(n, 0x20)) }
        v.extend([usize::MAX, usize::MAX / 2 + 1, 1 << 32, self.cap + 256, self.cap + 65536].map(Op::SetLen));
        v.push(Op::Fill(0xff));
        v.push(Op::Fill(0x01));
        for i in [0, m.len, self.cap.saturating_sub(1)] { if i < self.cap { v.push(Op::Poke(i, 0x02, (i % 5) as u8)) } }
        if self.rich {
            for n in 0..=self.cap { v.push(Op::Unchecked(n)) }
            for i in 0..self.vals.len() { v.push(Op::WriteRef(i)) }
            for i in 0..self.cap { for w in 0..5 { v.push(Op::Poke(i, 0x80 | w, w)) } }
        }
        v
    }
    fn step(&self, r: &mut Real<T>, m: &mut Model, op: &Op) -> Result<&'static str, Bad> {
        let s = &mut r.slot;
        match *op {
            Op::Write(k) | Op::WriteRef(k) => {
                let v = T::build(&self.vals[k]);
                let mut e = Vec::new();
                let want = encode(&T::ty(), &v.val(), &mut e);
                let got = if matches!(op, Op::Write(_)) { guard(|| s.write(v)) } else { guard(|| s.write(&v)) };
                match got {
                    Ok(Ok(())) => {
                        ensure!(want.is_ok(), "Slot: unencodable value written", "{:?}", self.vals[k]);
                        ensure!(e.len() <= self.cap, "Slot: more than the capacity written", "{} bytes", e.len());
                        m.buf[..e.len()].copy_from_slice(&e);
                        m.len = e.len();
                        Ok("written")
                    }
                    Ok(Err(x)) => {
                        let x = x.norm();
                        ensure!(want == Err(x.clone()) , "Slot: error of write", "{x:?} instead of {want:?}");
                        m.buf.copy_from_slice(s.as_mut_slice());
                        Ok("not encodable")
                    }
                    Err(p) => {
                        // What the encoder had written before an error counts.
                        ensure!(e.len() > self.cap, "Slot: write panics", "{p}: {} bytes into {}", e.len(), self.cap);
                        m.buf.copy_from_slice(s.as_mut_slice());
                        Ok("too small")
                    }
                }
            }
            Op::Read => {
                let mut src = Bytes::new(&m.buf[..m.len]);
                let want = decode(&T::ty(), &mut src);
                match (guard(|| s.read()), want) {
                    (Ok(Ok(v)), Ok(w)) => { ensure!(norm(&T::ty(), &v.val()) == norm(&T::ty(), &w), "Slot: value read", "{:?} instead of {w:?} from {:?}", v.val(), &m.buf[..m.len]); Ok("read") }
                    (Ok(Err(x)), Err(Fail::Err(w) | Fail::ShortOrErr(w))) => { let x = x.norm(); ensure!(x == w, "Slot: error of read", "{x:?} instead of {w:?}"); Ok("refused") }
                    (Ok(Err(_)) | Err(_), Err(Fail::Short)) => Ok("too short"),
                    (Err(_), Err(Fail::ShortOrErr(_))) => Ok("too short"),
                    (g, w) => bad!("Slot: result of read", "{:?} instead of {w:?} from {:?}", g.map(|g| g.map(|v| v.val()).map_err(Norm::norm)), &m.buf[..m.len]),
                }
            }
            Op::SetLen(n) => match guard(|| s.set_len(n)) {
                Ok(()) => { ensure!(n <= self.cap, "Slot: length beyond the capacity", "{n} of {}", self.cap); m.len = n; Ok("length set") }
                Err(_) => { ensure!(n > self.cap, "Slot: set_len panics", "{n} of {}", self.cap); Ok("length refused") }
            },
            Op::Unchecked(n) => { unsafe { s.set_len_unchecked(n) } m.len = n; Ok("length set") }
            Op::Copy(n, salt) => {
                let data: Vec<u8> = (0..n).map(|i| salt + i as u8).collect();
                match guard(|| s.copy_from_slice(&data)) {
                    Ok(()) => { ensure!(n <= self.cap, "Slot: copy beyond the capacity", "{n} of {}", self.cap); m.buf[..n].copy_from_slice(&data); m.len = n; Ok("copied") }
                    Err(_) => { ensure!(n > self.cap, "Slot: copy_from_slice panics", "{n} of {}", self.cap); Ok("copy refused") }
                }
            }
            Op::Poke(i, b, way) => {
                match way {
                    0 => s.as_mut_slice()[i] = b,
                    1 => AsMut::<[u8]>::as_mut(s)[i] = b,
                    2 => BorrowMut::<[u8]>::borrow_mut(s)[i] = b,
                    3 => s[i] = b,
                    _ => unsafe { s.as_mut_ptr().add(i).write(b) },
                }
                m.buf[i] = b;
                Ok("poked")
            }
            Op::Fill(b) => { s.fill(b); m.buf.fill(b); Ok("filled") }
        }
    }
    fn observe(&self, r: &mut Real<T>, m: &Model) -> Result<(), Bad> {
        let s = &mut r.slot;
        let used = &m.buf[..m.len];
        ensure!(s.len() == m.len && s.capacity() == self.cap, "Slot: length or capacity", "{} of {} instead of {} of {}", s.len(), s.capacity(), m.len, self.cap);
        ensure!(s.is_empty() == (m.len == 0) && s.is_full() == (m.len == self.cap), "Slot: is_empty or is_full", "{} of {}", m.len, self.cap);
        ensure!(s.as_slice() == used, "Slot: as_slice", "{:?} instead of {used:?}", s.as_slice());
        ensure!(AsRef::<[u8]>::as_ref(s) == used && Borrow::<[u8]>::borrow(s) == used && &**s == used, "Slot: borrowed views", "");
        ensure!(*s == *used && *s == used && *s == &mut used.to_vec()[..], "Slot: comparison", "not equal to {used:?}");
        if m.len < self.cap {
            let more = &m.buf[..m.len + 1];
            ensure!(!(*s == *more) && !(*s == more), "Slot: comparison", "equal to {more:?}");
        }
        if m.len > 0 { ensure!(!(*s == used[..m.len - 1]), "Slot: comparison", "equal to its prefix") }
        ensure!(format!("{s:?}") == format!("{used:?}"), "Slot: formatting", "{s:?}");
        for i in 0..m.len { ensure!(s[i] == used[i], "Slot: indexing", "{i}") }
        ensure!(s[..] == *used && s[..m.len] == *used && s[m.len..].is_empty(), "Slot: slicing", "");
        if m.len < self.cap {
            ensure!(guard(|| s[m.len]).is_err() && guard(|| s[..m.len + 1].len()).is_err(), "Slot: indexing beyond the used bytes", "");
            ensure!(s.get(m.len).is_none(), "Slot: get beyond the used bytes", "");
        }
        ensure!(s.as_ptr() == r.ptr && s.as_mut_ptr().cast_const() == r.ptr, "Slot: moved", "");
        ensure!(*s.as_mut_slice() == m.buf[..], "Slot: as_mut_slice", "{:?} instead of {:?}", s.as_mut_slice(), m.buf);
        ensure!(*AsMut::<[u8]>::as_mut(s) == m.buf[..] && *BorrowMut::<[u8]>::borrow_mut(s) == m.buf[..] && (**s).iter_mut().map(|b| *b).collect::<Vec<_>>() == m.buf, "Slot: mutable views", "");
        Ok(())
    }
}

fn sections<T: Sub + Encode<Error: Norm> + Decode<Error: Norm> + 'static>(s: &mut Vec<Section>, name: &'static str, caps: std::ops::RangeInclusive<usize>, vals: Vec<Val>) {
    for cap in caps {
        let v = vals.clone();
        s.push(section(format!("Slot<{name}>: capacity {cap}"), move |cx| {
            let (d, n) = if cx.thorough { (8, 60_000) } else { (4, 2_500) };
            merged(cx, &SlotSys::<T> { cap, vals: v.clone(), make: Make::Capacity, rich: false, p: PhantomData }, d, n);
        }));
        let v = vals.clone();
        s.push(section(format!("Slot<{name}>: capacity {cap}, all histories"), move |cx| {
            tree(cx, &SlotSys::<T> { cap, vals: v.clone(), make: Make::Capacity, rich: cx.thorough, p: PhantomData }, 3);
        }));
        let v = vals.clone();
        s.push(section(format!("Slot<{name}>: capacity {cap}, from raw parts"), move |cx| {
            for len in 0..=cap { merged(cx, &SlotSys::<T> { cap, vals: v.clone(), make: Make::Raw(len), rich: true, p: PhantomData }, 2, 1 << 16) }
        }));
    }
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        let u = |l: &[u128]| Val::L(l.iter().map(|x| Val::U(*x)).collect());
        sections::<Vec<usize>>(&mut s, "Vec<usize>", 0..=7, vec![u(&[]), u(&[0x0102]), u(&[3, 4]), u(&[5, 6, 7]), u(&[70000]), u(&[0x0a0b, 70000]), u(&[1, 2, 70000])]);
        sections::<char>(&mut s, "char", 3..=6, vec![Val::C('A'), Val::C('\u{10ffff}'), Val::C('\0')]);
        sections::<String>(&mut s, "String", 0..=6, ["", "a", "é", "abc", "abcdefgh"].map(|x| Val::S(x.into())).to_vec());
        sections::<SizedSlice<u8, 2>>(&mut s, "SizedSlice<u8, 2>", 1..=5, vec![u(&[]), u(&[9]), u(&[8, 7])]);
        sections::<SizedStr<3>>(&mut s, "SizedStr<3>", 2..=5, ["", "ab", "€"].map(|x| Val::S(x.into())).to_vec());
        sections::<()>(&mut s, "()", 0..=2, vec![Val::Unit]);
        sections::<Option<u8>>(&mut s, "Option<u8>", 0..=3, vec![opt(None), opt(Some(Val::U(5))), opt(Some(Val::U(255)))]);
        s.push(section("slots made for a type", |cx| {
            macro_rules! new { ($($t:ty),*) => { $( cx.case(fp_of(&stringify!($t)), || format!("Slot<{}>", stringify!($t)), |_| {
                for s in [Slot::<$t>::new(), Slot::<$t>::default()] {
                    ensure!(s.capacity() == <$t>::MAX_ENCODED_SIZE && s.len() == 0 && s.is_empty() && s.as_slice().is_empty(), "Slot: new", "{} of {}", s.len(), s.capacity());
                    ensure!(s.is_full() == (s.capacity() == 0), "Slot: is_full", "");
                }
                for v in values(&<$t as Sub>::ty(), 1) {
                    let mut s = Slot::<$t>::new();
                    for n in 0..2 {
                        let mut e = Vec::new();
                        encode(&<$t as Sub>::ty(), &v, &mut e).unwrap();
                        ensure!(s.write(<$t as Sub>::build(&v)).is_ok(), "Slot: write", "{v:?} ({n})");
                        ensure!(s.as_slice() == e, "Slot: bytes", "{:?} instead of {e:?}", s.as_slice());
                        ensure!(s.read().is_ok_and(|x| x.val() == lossy(&<$t as Sub>::ty(), &v)), "Slot: value", "{v:?}");
                    }
                }
                Ok("capacity is the maximum")
            }); cx.transitions += 1; cx.traces += 1; )* } }
            new!((), u8, u64, char, Option<u16>, Result<u8, u32>, SizedStr<5>, SizedSlice<u16, 3>, (u8, u16, u32), [u8; 0], std::net::SocketAddr, RefCell<u8>);
        }));
        s.push(section("big slots", |cx| {
            for cap in [255usize, 256, 257, 65535, 65536, 65537, 100_000] {
                for len in [0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 99_999, 100_000, 100_001] {
                    cx.case(fp_of(&(cap, len)), || format!("length {len} of {cap}"), |_| {
                        let mut s = Slot::<u8>::with_capacity(cap);
                        let data: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
                        let ok = guard(|| s.copy_from_slice(&data)).is_ok();
                        ensure!(ok == (len <= cap), "Slot: copy_from_slice", "{ok}");
                        ensure!(s.len() == if ok { len } else { 0 } && (!ok || s.as_slice() == data) && s.as_mut_slice().len() == cap, "Slot: contents", "");
                        let ok = guard(|| s.set_len(len)).is_ok();
                        ensure!(ok == (len <= cap) && (!ok || s.len() == len), "Slot: set_len", "");
                        Ok("big")
                    });
                    cx.transitions += 2;
                    cx.traces += 1;
                }
            }
        }));
        s
    });
}
