//! Decodings of every input over an alphabet, and encodings into outputs of
//! every capacity.

use crate::chooser::Chooser;
use crate::elem::*;
use crate::{see, show, Scenario};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::{GenericDecodeError, GenericEncodeError};
use oct::{Slot, SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::{CStr, CString};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, DefaultHasher};
use std::net::*;
use std::num::*;
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::*;
use std::time::*;

type Fixed = BuildHasherDefault<DefaultHasher>;

/// What each byte of the input may be; the last set goes for all that follow.
type Alphabet = &'static [&'static [u8]];

const PLAIN: Alphabet = &[&[0, 1, 2, 0x80, 0xFF]];
/// Elements that are fine, that refuse and that panic.
const ITEMS: Alphabet = &[&[0, 1, 2, 0xF0, 0xF1]];
/// Counts first: low byte, high byte.
const COUNTED: Alphabet = &[&[0, 1, 2, 3], &[0, 1], &[0, 1, 0xF0, 0xF1]];
const NUMBERS: Alphabet = &[&[0, 1, 2, 0xFF], &[0, 1], &[0, 1, 0x80]];
const TEXT: Alphabet = &[&[0, 1, 2, 3], &[0, 1], &[0, 1, 0xC3, 0xA9, 0xED]];
const FEW: Alphabet = &[&[0, 1]];
const CHARS: Alphabet = &[&[0, 0xFF], &[0, 0xD7, 0xD8, 0xDF, 0xE0, 0xFF], &[0, 0x10, 0x11], &[0, 1], &[0]];
const ADDR: Alphabet = &[&[0, 4, 6], &[0, 1], &[0]];
const WORD: Alphabet = &[&[0, 1, 0xFF], &[0], &[0, 0x80], &[0], &[0], &[0], &[0, 1], &[0, 0x7F, 0x80, 0xFF], &[0], &[0, 0x80], &[0]];

/// Consumes it all; whatever was misread gets looked at and dropped.
fn dec<T: Decode<Error: Debug> + Debug>(ch: &mut Chooser, alphabet: Alphabet, max: usize) -> &'static str {
    let n = ch.choose(max + 1);
    // Exactly as large as the data, for any access beyond it to be noticed.
    let data: Box<[u8]> = (0..n).map(|i| *ch.pick(alphabet[i.min(alphabet.len() - 1)])).collect();
    let mut input = Input::new(&data);
    match T::decode(&mut input) {
        Ok(v) => {
            show(&v);
            drop(data);
            show(&v);
            "decoded"
        }
        Err(e) => {
            show(&e);
            "refused"
        }
    }
}

/// All of a value's encodings: into the smallest buffers and into a slot,
/// and back again.
fn enc<T: Encode<Error: Debug> + Debug>(ch: &mut Chooser, cap: usize, make: &[fn() -> T]) -> &'static str {
    let v = ch.pick(make)();
    let n = ch.choose(cap + 1);
    let mut data: Box<[u8]> = vec![0xEE; n].into();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut o = Output::new(&mut data);
        let r = v.encode(&mut o);
        show(&r);
        show(&o.as_slice());
        r.is_ok()
    }));
    show(&data);
    show(&v);
    match r {
        Ok(true) => "encoded",
        Ok(false) => "refused",
        Err(_) => "too small",
    }
}

/// Round trip through a slot.
fn trip<T: Encode<Error: Debug> + Decode<Error: Debug> + SizedEncode + Debug>(ch: &mut Chooser, make: &[fn() -> T]) -> &'static str {
    let v = ch.pick(make)();
    let mut s = Slot::<T>::new();
    let r = s.write(&v);
    show(&(r.is_ok(), &s));
    show(s.as_mut_slice());
    drop(v);
    let n = s.len();
    s.set_len(ch.choose(n + 1));
    let r = s.read();
    show(&r.is_ok());
    if let Ok(v) = r {
        drop(s);
        show(&v);
    }
    "trip"
}

#[derive(Debug, Encode, Decode, SizedEncode)]
struct Unit;
#[derive(Debug, Encode, Decode, SizedEncode)]
struct Named {
    a: u8,
    b: Option<char>,
}
#[derive(Debug, Encode, Decode)]
struct Owning(String, Vec<Box<u8>>, [String; 2]);
#[derive(Debug, Encode, Decode)]
enum Shape {
    A,
    B(Box<u8>, String),
    C { x: NonZero<u8>, y: CString },
    D(Option<Box<Shape>>),
}
#[derive(Debug, Clone, Copy, Encode, Decode, SizedEncode)]
#[repr(i8)]
enum Small {
    A = -1,
    B,
    C = 2,
}
#[derive(Debug, Encode, Decode, SizedEncode)]
#[repr(u16)]
enum Text {
    A(SizedStr<3>) = 0x0100,
    B(SizedSlice<u8, 2>),
}

fn generic_decode(ch: &mut Chooser) -> &'static str {
    // Each error is a nested one, as the derives make them.
    let n = ch.choose(5);
    let data: Box<[u8]> = (0..n).map(|_| *ch.pick(&[0u8, 1, 0xFF])).collect();
    let mut i = Input::new(&data);
    let e: GenericDecodeError = match ch.choose(7) {
        0 => match <Result<[char; 1], [char; 1]>>::decode(&mut i) {
            Ok(v) => return { show(&v); "decoded" },
            Err(e) => e.into(),
        },
        1 => match <Vec<NonZero<u8>>>::decode(&mut i) {
            Ok(v) => return { show(&v); "decoded" },
            Err(e) => e.into(),
        },
        2 => match <Option<String>>::decode(&mut i) {
            Ok(v) => return { show(&v); "decoded" },
            Err(e) => e.into(),
        },
        3 => match <SizedSlice<Bound<u8>, 2>>::decode(&mut i) {
            Ok(v) => return { show(&v); "decoded" },
            Err(e) => e.into(),
        },
        4 => match SystemTime::decode(&mut i) {
            Ok(v) => return { show(&v); "decoded" },
            Err(e) => e.into(),
        },
        5 => match <[[CString; 1]; 1]>::decode(&mut i) {
            Ok(v) => return { show(&v); "decoded" },
            Err(e) => e.into(),
        },
        _ => match IpAddr::decode(&mut i) {
            Ok(v) => return { show(&v); "decoded" },
            Err(e) => e.into(),
        },
    };
    show(&e);
    show(&e.to_string());
    show(&std::error::Error::source(&e).map(|e| e.to_string()));
    "error"
}

fn generic_encode(ch: &mut Chooser) -> &'static str {
    let cap = ch.choose(5);
    let mut data: Box<[u8]> = vec![0; cap].into();
    let mut o = Output::new(&mut data);
    let n = *ch.pick(&[0usize, 0xFFFF, 0x10000, usize::MAX]);
    let i = *ch.pick(&[0isize, 0x7FFF, 0x8000, isize::MIN]);
    let e: GenericEncodeError = match ch.choose(5) {
        0 => match vec![n].encode(&mut o) {
            Ok(()) => return "encoded",
            Err(e) => e.into(),
        },
        1 => match [Some(i)].encode(&mut o) {
            Ok(()) => return "encoded",
            Err(e) => e.into(),
        },
        2 => {
            let c = RefCell::new(n);
            let b = if i == 0 { None } else { Some(c.borrow_mut()) };
            let r = c.encode(&mut o);
            drop(b);
            match r {
                Ok(()) => return "encoded",
                Err(e) => e.into(),
            }
        }
        3 => match Ok::<_, [isize; 1]>([i]).encode(&mut o) {
            Ok(()) => return "encoded",
            Err(e) => e.into(),
        },
        _ => match (Box::new([(); 0x10000]) as Box<[()]>).into_vec().encode(&mut o) {
            Ok(()) => return "encoded",
            Err(e) => e.into(),
        },
    };
    show(&e);
    show(&e.to_string());
    show(&std::error::Error::source(&e).map(|e| e.to_string()));
    "error"
}

/// Values that are shared with other threads while they are encoded.
fn threads(ch: &mut Chooser) -> &'static str {
    let what = ch.choose(3);
    let n = 1 + ch.choose(2);
    let m = Arc::new(Mutex::new(vec![1u8, 2]));
    let r = Arc::new(RwLock::new(vec![1u8, 2]));
    let a = Arc::new(AtomicU64::new(3));
    let one = {
        let (m, r, a) = (m.clone(), r.clone(), a.clone());
        std::thread::spawn(move || {
            for i in 0..n {
                match what {
                    0 => m.lock().unwrap().push(i as u8),
                    1 => r.write().unwrap().push(i as u8),
                    _ => a.store(i as u64, Ordering::Relaxed),
                }
            }
        })
    };
    let mut data = [0; 16];
    for _ in 0..n {
        let mut o = Output::new(&mut data);
        match what {
            0 => show(&m.encode(&mut o).is_ok()),
            1 => show(&r.encode(&mut o).is_ok()),
            _ => show(&a.encode(&mut o).is_ok()),
        }
        show(&o.as_slice());
    }
    one.join().unwrap();
    "threads"
}

macro_rules! decs {
    ($deep:ident $out:ident $($alphabet:ident { $($quick:literal $more:literal $t:ty),* $(,)? })*) => {$($(
        $out.push((concat!("decode ", stringify!($t)), if $deep { (|ch| dec::<$t>(ch, $alphabet, $more)) as Scenario } else { |ch| dec::<$t>(ch, $alphabet, $quick) }));
    )*)*};
}
macro_rules! encs {
    ($out:ident $($cap:literal $t:ty: $($v:expr),+;)*) => {$(
        $out.push((concat!("encode ", stringify!($t)), (|ch| enc::<$t>(ch, $cap, &[$(|| $v),+])) as Scenario));
    )*};
}
macro_rules! trips {
    ($out:ident $($t:ty: $($v:expr),+;)*) => {$(
        $out.push((concat!("slot of ", stringify!($t)), (|ch| trip::<$t>(ch, &[$(|| $v),+])) as Scenario));
    )*};
}

fn heap(n: u8) -> Heap {
    Heap(Box::new(n))
}

pub fn sections(deep: bool) -> Vec<(&'static str, Scenario)> {
    let mut out: Vec<(&'static str, Scenario)> = vec![("generic errors of decoding", generic_decode), ("generic errors of encoding", generic_encode), ("shared with a thread", threads)];
    decs! { deep out
        ITEMS {
            1 2 [Heap; 0], 2 3 [Heap; 1], 3 4 [Heap; 2], 3 4 [Heap; 3], 3 4 [[Heap; 2]; 2], 3 4 [[Heap; 1]; 2],
            3 4 (Heap, Heap, Heap), 3 4 Option<Heap>, 3 4 Result<Heap, Heap>,
            3 4 Bound<Heap>, 2 3 Box<Heap>, 2 3 Rc<Heap>, 2 3 Arc<Heap>, 2 3 RefCell<Heap>, 2 3 Mutex<Heap>, 2 3 RwLock<Heap>, 2 3 Range<Heap>,
            2 3 Wrapping<Heap>, 3 4 [Option<Heap>; 2], 3 4 [Rc<Heap>; 2]
        }
        COUNTED {
            4 6 Vec<Heap>, 4 6 LinkedList<Heap>, 4 6 SizedSlice<Heap, 2>, 3 5 SizedSlice<Heap, 0>, 4 6 [SizedSlice<Heap, 1>; 1],
            4 5 HashSet<Heap, Fixed>, 5 6 HashMap<Heap, Heap, Fixed>, 4 6 Vec<[Heap; 2]>, 4 6 Cow<'static, [Heap]>, 5 6 Vec<Option<Heap>>,
            5 7 Vec<Vec<Heap>>, 5 6 [Vec<Heap>; 2], 5 6 SizedSlice<Box<Heap>, 3>
        }
        TEXT {
            5 6 String, 4 6 CString, 4 6 SizedStr<2>, 3 5 SizedStr<0>, 5 6 SizedStr<4>, 4 5 Cow<'static, str>, 4 5 Cow<'static, CStr>, 4 6 Vec<SizedStr<1>>,
            4 6 Owning, 4 6 [SizedStr<1>; 2], 4 6 [String; 2]
        }
        NUMBERS {
            4 6 Vec<NonZero<u8>>, 4 6 SizedSlice<u8, 3>, 5 6 SizedSlice<u16, 2>, 4 6 Vec<bool>, 4 5 Vec<Small>
        }
        PLAIN {
            2 3 bool, 2 4 NonZero<u8>, 3 4 NonZero<i16>, 3 4 NonZero<usize>, 3 4 usize, 3 4 isize, 3 4 [NonZero<u8>; 3],
            3 5 Option<NonZero<u8>>, 3 5 [bool; 3], 2 3 [(); 3],
            4 5 Shape, 2 3 Small, 4 5 Text, 3 4 Named, 1 1 Unit, 3 4 u16, 2 3 PhantomOf, 2 2 RangeFull,
            2 4 RangeInclusive<u8>, 2 4 Saturating<u8>, 2 4 Cell<u8>, 2 4 AtomicU16, 2 4 AtomicBool
        }
        CHARS { 4 5 char, 4 5 [char; 1], 4 5 Cell<char> }
        WORD { 8 9 u64, 8 9 SystemTime, 8 9 NonZero<i64>, 8 9 f64, 16 17 u128, 16 17 NonZero<u128>, 12 13 Duration, 4 5 f32, 4 5 NonZero<u32> }
        FEW {
            5 7 Option<char>, 5 8 [[u8; 2]; 2], 5 8 Vec<Vec<u8>>, 5 8 Vec<Vec<()>>, 3 4 Vec<()>, 3 5 SizedSlice<(), 2>, 5 8 HashMap<u8, u8, Fixed>,
            5 8 LinkedList<Vec<u8>>, 5 9 Option<Box<Shape>>
        }
        ADDR { 6 19 IpAddr, 5 6 Ipv4Addr, 8 30 SocketAddr, 7 9 SocketAddrV4, 27 29 SocketAddrV6, 17 18 Ipv6Addr }
    }
    encs! { out
        4 [Heap; 3]: [heap(1), heap(2), heap(3)], [heap(1), heap(0xF0), heap(3)], [heap(1), heap(0xF1), heap(3)];
        6 Vec<Heap>: vec![], vec![heap(1)], vec![heap(1), heap(0xF0)], vec![heap(0xF1), heap(1)];
        6 LinkedList<Heap>: LinkedList::from([heap(1), heap(2)]), LinkedList::from([heap(1), heap(0xF0)]);
        6 SizedSlice<Heap, 2>: SizedSlice::default(), [heap(1), heap(2)].into(), [heap(1), heap(0xF0)].into();
        6 HashSet<Heap, Fixed>: HashSet::from_iter([heap(1), heap(2)]), HashSet::from_iter([heap(1), heap(0xF0)]);
        7 HashMap<Heap, Heap, Fixed>: HashMap::from_iter([(heap(1), heap(2))]), HashMap::from_iter([(heap(1), heap(0xF0))]);
        6 String: String::new(), "a\u{e9}".into();
        6 &'static str: "", "a\u{e9}";
        6 CString: c"".into(), c"ab".into();
        6 &'static CStr: c"", c"ab";
        6 SizedStr<3>: SizedStr::default(), "a".parse().unwrap(), "a\u{e9}".parse().unwrap();
        6 Cow<'static, [u8]>: Cow::Borrowed(&[1, 2]), Cow::Owned(vec![3]);
        6 Cow<'static, str>: Cow::Borrowed("ab"), Cow::Owned("c".into());
        6 Box<str>: "ab".into();
        6 Rc<[u8]>: vec![1, 2].into();
        6 Arc<str>: "ab".into();
        6 &'static [u16]: &[], &[1, 2];
        6 RefCell<Vec<u8>>: RefCell::new(vec![1]);
        6 Mutex<Vec<u8>>: Mutex::new(vec![1]);
        6 RwLock<Vec<u8>>: RwLock::new(vec![1]);
        6 Cell<u32>: Cell::new(7);
        6 char: 'a', '\u{1f600}', char::MAX;
        6 Option<char>: None, Some('\u{20ac}');
        6 Result<u8, ()>: Ok(1);
        6 Bound<u16>: Bound::Included(1), Bound::Unbounded;
        6 NonZero<u32>: NonZero::new(5).unwrap();
        6 usize: 5, 0xFFFF, 0x10000;
        6 isize: -1, -0x8000, 0x8000;
        14 Duration: Duration::MAX;
        10 SystemTime: SystemTime::UNIX_EPOCH, SystemTime::UNIX_EPOCH - Duration::from_secs(5);
        18 u128: u128::MAX;
        6 [f32; 1]: [f32::NAN];
        20 SocketAddr: "1.2.3.4:5".parse().unwrap();
        28 SocketAddrV6: "[::1]:5".parse().unwrap();
        18 IpAddr: "::1".parse().unwrap();
        6 AtomicI32: AtomicI32::new(-1);
        6 RangeInclusive<u16>: 1..=2;
        6 std::cell::LazyCell<u16>: std::cell::LazyCell::new(|| 1);
        6 std::sync::LazyLock<u16>: LazyLock::new(|| 1);
        12 Owning: Owning("a".into(), vec![Box::new(1)], ["".into(), "b".into()]);
        9 Shape: Shape::A, Shape::B(Box::new(1), "a".into()), Shape::C { x: NonZero::<u8>::MIN, y: c"a".into() }, Shape::D(Some(Box::new(Shape::A))), Shape::D(None);
        3 Small: Small::A, Small::B, Small::C;
    }
    trips! { out
        [Heap; 2]: [heap(1), heap(2)], [heap(1), heap(0xEF)];
        SizedSlice<Heap, 2>: SizedSlice::default(), SizedSlice::new(&[heap(1)]).unwrap(), [heap(1), heap(2)].into();
        SizedStr<3>: SizedStr::default(), "a".parse().unwrap(), "a\u{e9}".parse().unwrap();
        Option<Box<char>>: None, Some(Box::new('a'));
        Named: Named { a: 1, b: None }, Named { a: 1, b: Some('\u{1f600}') };
        Text: Text::A("abc".parse().unwrap()), Text::B(SizedSlice::new(&[1]).unwrap());
        Small: Small::A, Small::B, Small::C;
        Unit: Unit;
        NonZero<u16>: NonZero::<u16>::MAX;
        Result<Heap, Heap>: Ok(heap(1)), Err(heap(1));
    }
    out
}

type PhantomOf = std::marker::PhantomData<Heap>;
