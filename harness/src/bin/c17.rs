//! C17: what the library does with some of its features only.
//!
//! Prints one line for everything that is there: its name and a digest of
//! what it does. The driver compares these between the subsets of features.

use oct::decode::Input;
use oct::encode::Output;
use oct::error::*;
use oct::{SizedIter, SizedSlice, SizedStr};
use std::marker::PhantomData;
use vh::codec::{bounds, hex, sequences};
use vh::cx::{guard, install_hook, Fp};
use vh::reg::{self, Entry};
use vh::gen;

/// What something does, line by line.
struct Tale { fp: Fp, lines: u64, show: bool }
impl Tale {
    fn line(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        if self.show { println!("{s}") }
        self.fp.bytes(s.as_bytes());
        self.lines += 1;
    }
}

fn why(w: vh::err::Why) -> String {
    let c = |n: &[vh::err::Node]| n.iter().map(|n| n.msg.clone()).collect::<Vec<_>>().join(" <- ");
    format!("{:?} [{}] generic {:?} [{}]", w.spec, c(&w.chain), w.gen, c(&w.gen_chain))
}

fn entry(e: &Entry, deep: bool, t: &mut Tale) {
    t.line(|| format!("max {:?} decodes {}", e.max, e.dec.is_some()));
    let mut buf = vec![0xAAu8; 1 << 18];
    let vals = gen::values(&e.ty, if e.heavy { 0 } else if deep { 2 } else { 1 });
    let bad = gen::bad_values(&e.ty, 1);
    for v in vals.iter().take(if deep { 20_000 } else { 1_500 }).chain(bad.iter().take(if deep { 2_000 } else { 200 })) {
        let r = guard(|| { let mut o = Output::new(&mut buf); (e.enc)(v, &mut o).map(|()| o.position()) });
        let w = match &r { Ok(Err(_)) => e.why_enc.as_ref().and_then(|f| guard(|| f(v, &mut vec![0; 1 << 18])).ok().flatten()).map(why), _ => None };
        t.line(|| match r {
            Ok(Ok(n)) => format!("encodes {v:?} as {}", if n > 4096 { format!("{:x}", Fp::of(&buf[..n])) } else { buf[..n].iter().map(|b| format!("{b:02x}")).collect() }),
            Ok(Err(x)) => format!("refuses {v:?}: {x:?} {}", w.unwrap_or_default()),
            Err(_) => format!("panics for {v:?}"),
        });
    }
    if e.dec.is_none() || e.heavy { return }
    let (devs, points, lvl) = bounds(e, deep);
    let mut n = 0u64;
    let cap = if deep { 100_000 } else { 3_000 };
    let mut lines = vec![];
    sequences(&e.ty, if deep { devs } else { devs.min(1) }, points, lvl.min(if deep { 3 } else { 1 }), |data, _| {
        n += 1;
        if n > cap { return }
        for cut in [0, 1] {
            if cut > data.len() { continue }
            let d = &data[..data.len() - cut];
            let r = guard(|| { let mut i = Input::new(d); (e.dec.as_ref().unwrap())(&mut i).map(|v| (v, i.position())) });
            let w = match &r { Ok(Err(_)) => e.why_dec.as_ref().and_then(|f| guard(|| f(d)).ok().flatten()).map(why), _ => None };
            lines.push(match r {
                Ok(Ok((v, p))) => format!("decodes {} as {:?} from {p} octets", hex(d), v),
                Ok(Err(x)) => format!("rejects {}: {x:?} {}", hex(d), w.unwrap_or_default()),
                Err(_) => format!("panics for {}", hex(d)),
            });
        }
        for l in lines.drain(..) { t.line(|| l) }
    });
}

/// The sized types, through what they offer in every configuration.
fn slices<const N: usize>(t: &mut Tale) {
    let words: Vec<Vec<u8>> = (0..=N + 1).flat_map(|n| {
        let mut v = vec![vec![]];
        for _ in 0..n.min(3) { v = v.into_iter().flat_map(|w: Vec<u8>| (1..=3u8).map(move |x| { let mut w = w.clone(); w.push(x); w })).collect() }
        v
    }).collect();
    let mk = |w: &[u8]| SizedSlice::<u8, N>::new(w);
    for w in &words {
        let r = mk(w);
        t.line(|| format!("new {w:?}: {:?}", r.as_ref().map_err(|e| e.to_string())));
        let c: Result<SizedSlice<u8, N>, String> = guard(|| w.iter().copied().collect());
        t.line(|| format!("collected {w:?}: {:?}", c.as_ref().ok()));
        let Ok(mut s) = r else { continue };
        t.line(|| format!("{:?} {:?} {} {} {} {}", s, s.as_slice(), s.len(), s.capacity(), s.is_empty(), s.is_full()));
        let h = |x: &dyn Fn(&mut Fp)| { let mut f = Fp::new(); x(&mut f); f.get() };
        t.line(|| format!("hash {}", h(&|f| std::hash::Hash::hash(&s, f)) == h(&|f| std::hash::Hash::hash(&w[..], f))));
        for x in &words {
            if let Ok(o) = SizedSlice::<u8, 4>::new(x) { t.line(|| format!("{x:?} {} {:?}", s == o, s.partial_cmp(&o))) }
            t.line(|| format!("{} {:?}", s == &x[..], s.partial_cmp(&&x[..])));
            let mut d = s.clone();
            let r = guard(|| d.copy_from_slice(x));
            t.line(|| format!("copied {x:?} {} {:?}", r.is_ok(), d));
        }
        for m in s.iter_mut() { *m += 10 }
        s.as_mut_slice().reverse();
        let l = s.each_ref().into_iter().map(|x| *x).collect::<Vec<_>>();
        let mut it: SizedIter<u8, N> = s.into_iter();
        let (a, b) = (it.next(), it.next_back());
        let c = it.clone();
        t.line(|| format!("{l:?} {a:?} {b:?} {:?} {:?}", it.as_slice(), c.rev().collect::<Vec<u8>>()));
    }
}
fn strings<const N: usize>(t: &mut Tale) {
    let alpha: [&[u8]; 6] = [b"a", b"b", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\x80"];
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..3 { words = words.iter().cloned().chain(words.iter().filter(|w| !w.is_empty() || true).flat_map(|w| alpha.iter().map(move |a| [&w[..], a].concat()))).collect(); words.sort(); words.dedup() }
    for w in &words {
        let r = SizedStr::<N>::from_utf8(w);
        t.line(|| format!("{w:?}: {:?}", r.as_ref().map(|s| s.to_string()).map_err(|e| (e.to_string(), std::error::Error::source(e).map(|e| e.to_string())))));
        let Ok(u) = std::str::from_utf8(w) else { continue };
        t.line(|| format!("{:?} {:?} {:?}", SizedStr::<N>::new(u).is_ok(), u.parse::<SizedStr<N>>().is_ok(), guard(|| u.chars().collect::<SizedStr<N>>()).ok().map(|s| s.to_string())));
        let Ok(mut s) = r else { continue };
        t.line(|| format!("{s} {s:?} {} {} {} {:?} {:?}", s.len(), s.is_empty(), s.is_full(), s.chars().rev().collect::<Vec<_>>(), s.char_indices().collect::<Vec<_>>()));
        for x in ["", "a", "é", "b"] { t.line(|| format!("{} {:?}", s == x, s.partial_cmp(&x))) }
        s.as_mut_str().make_ascii_uppercase();
        t.line(|| format!("{:?} {:?}", s.as_bytes(), s.clone().into_bytes()));
    }
}

/// Everything public, and the features that the documentation gives for it.
fn interface() -> Vec<(&'static str, &'static str, bool)> {
    let mut l = vec![];
    macro_rules! has {
        ($req:literal: $($t:ty: $tr:path);* $(;)?) => { $( l.push(($req, concat!(stringify!($t), ": ", stringify!($tr)), {
            #[allow(dead_code)]
            struct Is<T: ?Sized>(PhantomData<T>);
            #[allow(dead_code)]
            impl<T: ?Sized + $tr> Is<T> { const HAS: bool = true; }
            #[allow(dead_code)]
            trait Not { const HAS: bool = false; }
            impl<T: ?Sized> Not for Is<T> {}
            <Is<$t>>::HAS
        })); )* };
    }
    use std::borrow::*;
    use std::error::Error;
    use std::fmt::*;
    use std::hash::Hash;
    use std::iter::FusedIterator;
    use std::ops::*;
    use std::str::FromStr;
    use oct::decode::Decode;
    use oct::encode::{Encode, SizedEncode};
    type S = SizedSlice<u8, 3>;
    type R = SizedStr<3>;
    has!("":
        S: AsRef<[u8]>; S: AsMut<[u8]>; S: Borrow<[u8]>; S: BorrowMut<[u8]>; S: Deref; S: DerefMut; S: From<[u8; 3]>; S: TryFrom<&'static [u8]>;
        S: Clone; S: Debug; S: Default; S: Hash; S: Eq; S: Ord; S: PartialEq<SizedSlice<u8, 5>>; S: PartialEq<[u8; 4]>; S: PartialEq<&'static [u8]>;
        S: PartialOrd<SizedSlice<u8, 5>>; S: PartialOrd<[u8; 4]>; S: PartialOrd<&'static [u8]>; S: FromIterator<u8>; S: IntoIterator; &'static S: IntoIterator; &'static mut S: IntoIterator;
        S: Index<usize>; S: Index<Range<usize>>; S: IndexMut<RangeFull>; S: Encode; S: Decode; S: SizedEncode; S: Send; S: Sync;
        R: AsRef<str>; R: AsRef<[u8]>; R: AsMut<str>; R: Borrow<str>; R: BorrowMut<str>; R: Deref; R: DerefMut; R: FromStr; R: TryFrom<char>; R: TryFrom<&'static str>;
        R: Clone; R: Debug; R: Default; R: Display; R: Eq; R: FromIterator<char>; R: Hash; R: Ord; R: PartialEq<SizedStr<5>>; R: PartialEq<&'static str>; R: PartialOrd<SizedStr<5>>; R: PartialOrd<&'static str>;
        R: Index<RangeFull>; R: IndexMut<RangeFull>; R: Encode; R: Decode; R: SizedEncode;
        SizedIter<u8, 3>: Clone; SizedIter<u8, 3>: DoubleEndedIterator; SizedIter<u8, 3>: ExactSizeIterator; SizedIter<u8, 3>: FusedIterator; SizedIter<u8, 3>: AsRef<[u8]>; SizedIter<u8, 3>: AsMut<[u8]>;
        CharDecodeError: Error; LengthError: Error; Utf8Error: Error; Utf16Error: Error; StringError: Error; NonZeroDecodeError: Error; UsizeEncodeError: Error; IsizeEncodeError: Error;
        InputError: Error; OutputError: Error; GenericEncodeError: Error; GenericDecodeError: Error;
        ItemDecodeError<usize, CharDecodeError>: Error; ItemEncodeError<usize, UsizeEncodeError>: Error; CollectionDecodeError<LengthError, CharDecodeError>: Error; CollectionEncodeError<UsizeEncodeError, IsizeEncodeError>: Error;
        EnumDecodeError<u8, CharDecodeError>: Error; EnumEncodeError<usize, UsizeEncodeError>: Error; RefCellEncodeError<UsizeEncodeError>: Error;
        GenericDecodeError: From<CharDecodeError>; GenericDecodeError: From<LengthError>; GenericDecodeError: From<NonZeroDecodeError>; GenericDecodeError: From<Utf8Error>; GenericDecodeError: From<std::convert::Infallible>;
        GenericDecodeError: From<ItemDecodeError<usize, CharDecodeError>>; GenericDecodeError: From<CollectionDecodeError<LengthError, CharDecodeError>>; GenericDecodeError: From<EnumDecodeError<u8, CharDecodeError>>;
        GenericDecodeError: From<EnumDecodeError<bool, CharDecodeError>>;
        GenericEncodeError: From<UsizeEncodeError>; GenericEncodeError: From<IsizeEncodeError>; GenericEncodeError: From<std::cell::BorrowError>; GenericEncodeError: From<RefCellEncodeError<UsizeEncodeError>>;
        GenericEncodeError: From<ItemEncodeError<usize, UsizeEncodeError>>; GenericEncodeError: From<CollectionEncodeError<UsizeEncodeError, UsizeEncodeError>>; GenericEncodeError: From<EnumEncodeError<isize, UsizeEncodeError>>;
        [u16]: Encode; str: Encode; std::ffi::CStr: Encode; &'static str: Encode; &'static mut [u8]: Encode; std::convert::Infallible: Encode; std::convert::Infallible: Decode;
        std::cell::LazyCell<u8>: Encode; std::cell::RefCell<[u8]>: Encode; std::cell::LazyCell<u8>: SizedEncode; std::cell::RefCell<u16>: SizedEncode; &'static u8: SizedEncode;
    );
    has!("alloc":
        S: PartialEq<Vec<u8>>; S: PartialOrd<Vec<u8>>; Box<[u8]>: From<S>; Vec<u8>: From<S>; R: PartialEq<String>; R: PartialOrd<String>; R: TryFrom<String>; Box<str>: From<R>; String: From<R>;
        Box<[u8]>: Encode; std::rc::Rc<str>: Encode; std::sync::Arc<[u16]>: Encode; Cow<'static, str>: Encode; Box<u8>: SizedEncode; std::rc::Rc<u8>: SizedEncode; std::sync::Arc<u8>: SizedEncode; Cow<'static, u8>: SizedEncode;
        std::ffi::CString: Decode; Vec<u8>: Decode; String: Decode; std::collections::LinkedList<u8>: Decode; Box<u8>: Decode;
    );
    has!("std":
        R: AsRef<std::ffi::OsStr>; R: AsRef<std::path::Path>; R: std::net::ToSocketAddrs;
        std::sync::Mutex<[u8]>: Encode; std::sync::RwLock<[u8]>: Encode; std::sync::LazyLock<u8>: Encode; std::sync::LazyLock<u8>: SizedEncode; std::sync::Mutex<u8>: SizedEncode; std::sync::RwLock<u8>: SizedEncode;
        std::collections::HashMap<u8, u16>: Encode; std::collections::HashSet<u8>: Decode; std::collections::HashMap<u8, u16>: Decode; std::time::SystemTime: Encode; std::time::SystemTime: Decode; std::time::SystemTime: SizedEncode;
    );
    #[cfg(feature = "oa")]
    {
        has!("alloc": oct::Slot<u8>: Debug; CStringDecodeError: Error; GenericDecodeError: From<CStringDecodeError>);
        let s = SizedSlice::<u8, 3>::new(&[1, 2]).unwrap();
        let r = SizedStr::<3>::new("ab").unwrap();
        l.push(("alloc", "into_vec", s.clone().into_vec() == [1, 2]));
        l.push(("alloc", "into_boxed_slice", *s.into_boxed_slice() == [1, 2]));
        l.push(("alloc", "into_string", r.clone().into_string() == "ab"));
        l.push(("alloc", "into_boxed_str", &*r.into_boxed_str() == "ab"));
    }
    #[cfg(feature = "os")]
    has!("std": SystemTimeDecodeError: Error; GenericDecodeError: From<SystemTimeDecodeError>);
    #[cfg(feature = "op")]
    {
        // The derive macros, beside the traits.
        #[derive(oct::decode::Decode, oct::encode::Encode, oct::encode::SizedEncode)]
        struct D { #[allow(dead_code)] x: u8 }
        has!("proc-macro": D: Encode; D: Decode; D: SizedEncode);
    }
    l
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let deep = std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough");
    let dump = args.iter().position(|a| a == "--dump").map(|i| args[i + 1].clone());
    for (req, what, has) in interface() { if dump.is_none() { println!("item\t{req}\t{what}\t{has}") } }
    let run = |name: &str, f: &dyn Fn(&mut Tale)| {
        if dump.as_ref().is_some_and(|d| d != name) { return }
        let mut t = Tale { fp: Fp::new(), lines: 0, show: dump.is_some() };
        if let Err(m) = guard(|| f(&mut t)) { println!("broken\t{name}\t{m}"); std::process::exit(3) }
        if dump.is_none() { println!("does\t{name}\t{}\t{:016x}", t.lines, t.fp.get()) }
    };
    for e in reg::all() { run(&e.name, &|t| entry(&e, deep, t)) }
    run("sized slices of 0", &slices::<0>);
    run("sized slices of 1", &slices::<1>);
    run("sized slices of 3", &slices::<3>);
    run("sized strings of 0", &strings::<0>);
    run("sized strings of 2", &strings::<2>);
    run("sized strings of 6", &strings::<6>);
}
