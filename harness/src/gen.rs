//! Bounded-exhaustive alphabets of model values.
//!
//! `values(ty, 3)` is everything for types of up to 16 bits, and `values(ty, 4)`
//! also for characters;
//! wider and composite types use byte-position and boundary patterns, one
//! field varied fully at a time plus the product of small alphabets.

use crate::model::{opt, Ty, Val};

/// Patterns of an n-byte word: boundaries, single bits, and (at the higher
/// levels) every byte value at every byte position, alone and in a word of
/// otherwise distinct bytes.
pub fn words(n: u32, lvl: u32) -> Vec<u128> {
    let bits = 8 * n;
    let mask = if n == 16 { u128::MAX } else { (1u128 << bits) - 1 };
    let asc = 0x100f0e0d0c0b0a090807060504030201u128 & mask;
    let desc = 0xf1e2d3c4b5a69788796a5b4c3d2e1f10u128 & mask;
    let mut v: Vec<u128> = vec![asc, 0, desc];
    if lvl >= 1 {
        v.extend([1, 2, 0x7f, 0x80, 0xff, mask, mask - 1, mask >> 1, (mask >> 1) + 1, (mask >> 1) ^ mask, asc ^ mask]);
    }
    if lvl >= 2 {
        for b in 0..bits { for d in [0u128.wrapping_sub(1), 0, 1] { v.push((1u128 << b).wrapping_add(d) & mask) } }
        for k in 0..n { v.push(0xffu128 << (8 * k)); v.push(mask ^ (0xffu128 << (8 * k))) }
    }
    if lvl >= 3 {
        if n <= 2 { v = (0..=mask).collect(); return v }
        for k in 0..n {
            for b in 0..256u128 {
                v.push(b << (8 * k));
                v.push(asc & !(0xffu128 << (8 * k)) | b << (8 * k));
            }
        }
    }
    dedup(v)
}

/// Values with a meaning of their own.
pub fn special(ty: &Ty) -> Vec<u128> {
    match ty {
        Ty::F32 => vec![0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xff80_0001, 0x7fbf_ffff, 0xffc1_2345, 0xffff_ffff, 0x7f7f_ffff, 1, 0x8000_0000, 0x8000_0001, 0x0080_0000, 0x007f_ffff],
        Ty::F64 => vec![
            0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff0_0000_0000_0001, 0x7ff7_ffff_ffff_ffff, 0xfff8_1234_5678_9abc,
            u64::MAX as u128, 1, 1 << 63, 1 << 63 | 1, 0x7fef_ffff_ffff_ffff, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000,
        ],
        // Unspecified, loopback, private, shared, link-local, documentation,
        // multicast, reserved, broadcast.
        Ty::V4 => [
            [0, 0, 0, 0], [0, 0, 0, 1], [10, 0, 0, 1], [100, 64, 0, 1], [127, 0, 0, 1], [127, 255, 255, 255], [169, 254, 1, 2], [172, 16, 0, 1], [192, 0, 2, 1], [192, 168, 0, 1],
            [198, 18, 0, 1], [198, 51, 100, 1], [203, 0, 113, 1], [224, 0, 0, 1], [239, 255, 255, 255], [240, 0, 0, 1], [255, 255, 255, 254], [255; 4],
        ].into_iter().flat_map(|a: [u8; 4]| [u32::from_be_bytes(a), u32::from_le_bytes(a)]).map(u128::from).collect(),
        // The same, as mapped, compatible and translated IPv4 addresses, and
        // discard-only, Teredo and 6to4 ones.
        Ty::V6 => {
            let mut v: Vec<u128> = Vec::new();
            for hi in [0u128, 0xffff, 0xfffe, 0xffff_0000, 0x64_ff9b << 64, 0x64_ff9b_0001 << 48] {
                for lo in [0u128, 1, 2, 0x7f00_0001, 0xc0a8_0001, 0xc000_0201, 0x0102_0304, 0xffff_ffff] { v.push(hi << 32 | lo) }
            }
            for hi in [0xfe80u128, 0xfec0, 0xfc00, 0xfd12, 0xff00, 0xff01, 0xff02, 0xff05, 0xff0e, 0x2001, 0x2002, 0x0100] {
                for lo in [0, 1, 0x0db8 << 96, 0x0db8 << 96 | 1, 0x7f00_0001 << 80] { v.push(hi << 112 | lo) }
            }
            v.iter().flat_map(|x| [*x, x.swap_bytes()]).collect()
        }
        _ => vec![],
    }
}

fn dedup<T: Clone + std::hash::Hash + Eq>(v: Vec<T>) -> Vec<T> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(x.clone())).collect()
}

fn sext(v: u128, n: u32) -> i128 { let s = 128 - 8 * n; ((v << s) as i128) >> s }

pub fn chars(lvl: u32) -> Vec<char> {
    match lvl {
        0 => vec!['A', '\u{10FFFF}', 'ð'],
        1 | 2 => ['A', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', 'ð', '€', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}'].to_vec(),
        3 => dedup(words(4, 2).into_iter().chain((0..0x11).flat_map(|p| [p << 16, (p << 16) | 0x1234, (p << 16) | 0xffff])).chain(0..0x180).chain(0xd7f0..0xe010)
            .filter_map(|c| char::from_u32(c as u32)).chain(chars(1)).collect()),
        _ => ('\0'..=char::MAX).collect(),
    }
}

pub fn strings(lvl: u32, cap: Option<usize>) -> Vec<String> {
    let mut v: Vec<String> = vec!["aðb".into(), "".into(), "x".into()];
    if lvl >= 1 { v.extend(["\0", "ab", "é", "€", "😀", "a😀", "😀a", "é€", "\u{7f}\u{80}", "abc\0d", "a\0", "\0b", " a ", "\r\n", "\u{feff}b", "e\u{301}"].map(String::from)) }
    if lvl >= 2 {
        let cs = chars(1);
        for a in &cs { v.push(a.to_string()); for b in &cs { v.push(format!("{a}{b}")); for c in ['q', 'ß', '語', '𝄞'] { v.push(format!("{a}{b}{c}")) } } }
        for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 258, 500, 511, 512, 513, 1000] {
            v.push("abcdefghijklmnopqrstuvwxyz".chars().cycle().take(n).collect());
            v.push("語".repeat(n / 3) + &"z".repeat(n % 3));
        }
    }
    if lvl >= 3 {
        for c in chars(lvl) { v.push(c.to_string()) }
        for n in 0..600 { v.push("0123456789abcdefX".chars().cycle().take(n).collect()) }
        for n in [1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 32769, 65279, 65280, 65534, 65535] { v.push("AbCdEfG".chars().cycle().take(n).collect()) }
    }
    let v = match cap { Some(c) => {
        let mut v: Vec<String> = v.into_iter().filter(|s| s.len() <= c).collect();
        for n in c.min(65535).saturating_sub(3)..=c.min(65535) { v.push("uvwxyz".chars().cycle().take(n).collect()) }
        v
    } None => v };
    dedup(v)
}

/// Lists of elements: every element alone, pairs of the small alphabet, and
/// longer lists of distinguishable elements.
fn lists(t: &Ty, lvl: u32, cap: Option<usize>, max_elem: u32) -> Vec<Vec<Val>> {
    let one = values(t, lvl.min(max_elem));
    let small = values(t, 0);
    let many = values(t, 1.min(lvl));
    let rot = |n: usize| -> Vec<Val> { (0..n).map(|i| many[(i * 7 + i / 256) % many.len()].clone()).collect() };
    let mut v: Vec<Vec<Val>> = vec![rot(2), vec![], rot(1)];
    if lvl >= 1 { for a in &one { v.push(vec![a.clone()]) } v.push(rot(3)) }
    if lvl >= 2 {
        for a in &small { for b in &small { v.push(vec![a.clone(), b.clone()]); for c in &small { v.push(vec![a.clone(), b.clone(), c.clone()]) } } }
        for n in 0..20 { v.push(rot(n)) }
    }
    let lens: &[usize] = match lvl { 0 | 1 => &[], 2 => &[31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300], _ => &[400, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 4097] };
    for n in lens { v.push(rot(*n)) }
    let v = match cap {
        Some(c) => {
            let mut v: Vec<_> = v.into_iter().filter(|l| l.len() <= c).collect();
            if c <= 4096 { for n in c.saturating_sub(2)..=c { v.push(rot(n)) } }
            v
        }
        None => v,
    };
    dedup(v)
}

/// One field at a time over its alphabet (the others at their first value),
/// and the product of the small alphabets while it stays small.
fn product(ts: &[Ty], lvl: u32) -> Vec<Vec<Val>> {
    let base: Vec<Vec<Val>> = ts.iter().map(|t| values(t, 0)).collect();
    if base.iter().any(|b| b.is_empty()) { return vec![] }
    // Neighbouring fields of one type get different values.
    let dflt: Vec<Val> = base.iter().enumerate().map(|(i, b)| b[i % b.len()].clone()).collect();
    let mut out = vec![dflt.clone()];
    if lvl == 0 {
        out.push(base.iter().enumerate().map(|(i, b)| b[(i + 1) % b.len()].clone()).collect());
        return dedup(out);
    }
    for (i, t) in ts.iter().enumerate() {
        for v in values(t, lvl.min(if ts.len() > 4 { 2 } else { 3 })) {
            let mut x = dflt.clone();
            x[i] = v;
            out.push(x);
        }
    }
    let total: usize = base.iter().map(|b| b.len()).try_fold(1usize, |a, b| a.checked_mul(b)).unwrap_or(usize::MAX);
    if total <= if lvl >= 2 { 600_000 } else { 243 } {
        let mut idx = vec![0; ts.len()];
        loop {
            out.push(idx.iter().zip(&base).map(|(i, b)| b[*i].clone()).collect());
            let mut k = 0;
            while k < idx.len() { idx[k] += 1; if idx[k] < base[k].len() { break } idx[k] = 0; k += 1 }
            if k == idx.len() { break }
        }
    }
    dedup(out)
}

/// Encodable values of the type.
pub fn values(ty: &Ty, lvl: u32) -> Vec<Val> {
    match ty {
        Ty::Unit => vec![Val::Unit],
        Ty::Bool => vec![Val::B(true), Val::B(false)],
        Ty::UInt(n) => words(*n, lvl).into_iter().map(Val::U).collect(),
        Ty::Int(n) => words(*n, lvl).into_iter().map(|w| Val::I(sext(w, *n))).collect(),
        Ty::Usize => words(2, lvl).into_iter().map(Val::U).collect(),
        Ty::Isize => words(2, lvl).into_iter().map(|w| Val::I(sext(w, 2))).collect(),
        Ty::F32 => {
            let mut v = vec![0x3fc01234u32, 0, 0x8000_0000];
            if lvl >= 1 { v.extend(special(ty).into_iter().map(|w| w as u32)) }
            if lvl >= 2 { v.extend(words(4, lvl).into_iter().map(|w| w as u32)) }
            dedup(v).into_iter().map(|b| Val::F(b as u64)).collect()
        }
        Ty::F64 => {
            let mut v = vec![0x3ff8_1234_5678_9abcu64, 0, 1 << 63];
            if lvl >= 1 { v.extend(special(ty).into_iter().map(|w| w as u64)) }
            if lvl >= 2 { v.extend(words(8, lvl).into_iter().map(|w| w as u64)) }
            dedup(v).into_iter().map(Val::F).collect()
        }
        Ty::Char => chars(lvl).into_iter().map(Val::C).collect(),
        Ty::NonZero(t) => values(t, lvl).into_iter().filter(|v| !matches!(v, Val::U(0) | Val::I(0))).collect(),
        Ty::Opt(t) => values(t, lvl).into_iter().map(|v| opt(Some(v))).chain([opt(None)]).collect(),
        Ty::Res(t, e) => {
            let (a, b) = (values(t, lvl), values(e, lvl));
            let mut v = Vec::new();
            // Alternate, so that small prefixes contain both.
            let n = a.len().max(b.len());
            for i in 0..n {
                if let Some(x) = a.get(i) { v.push(Val::Ok(Box::new(x.clone()))) }
                if let Some(x) = b.get(i) { v.push(Val::Err(Box::new(x.clone()))) }
            }
            v
        }
        Ty::Bound(t) => {
            let l = values(t, lvl);
            let mut v = vec![Val::Var(2, vec![])];
            for x in l { v.push(Val::Var(0, vec![x.clone()])); v.push(Val::Var(1, vec![x])) }
            v
        }
        Ty::Arr(t, n) => {
            if *n <= 12 { return product(&vec![(**t).clone(); *n], lvl.min(if *n > 3 { 2 } else { 3 })).into_iter().map(Val::L).collect() }
            let many = values(t, 2.min(lvl + 1));
            (0..=lvl as usize).map(|k| Val::L((0..*n).map(|i| many[(i * 5 + k + i / 256) % many.len()].clone()).collect())).collect()
        }
        Ty::Seq(t, cap) => lists(t, lvl, *cap, 3).into_iter().map(Val::L).collect(),
        Ty::Str(cap) => strings(lvl, *cap).into_iter().map(Val::S).collect(),
        Ty::CStr => {
            let mut v: Vec<Vec<u8>> = strings(lvl.min(2), None).into_iter().map(|s| s.into_bytes()).filter(|b| !b.contains(&0)).collect();
            if lvl >= 1 { for b in 1..=255u8 { v.push(vec![b]); if lvl >= 2 { v.push(vec![b, 0x41]); v.push(vec![0xff, b]) } } }
            if lvl >= 3 { for a in 1..=255u8 { for b in 1..=255u8 { v.push(vec![a, b]) } } v.push(vec![7; 65535]); v.push(vec![0xff; 40000]) }
            dedup(v).into_iter().map(Val::Z).collect()
        }
        Ty::Tup(ts) | Ty::Struct(ts) => product(ts, lvl).into_iter().map(Val::L).collect(),
        Ty::Map(k, w) => {
            let ks = lists(k, lvl, None, 2);
            let ws = values(w, lvl.min(1));
            dedup(ks.into_iter().map(dedup).collect()).into_iter().enumerate()
                .map(|(j, l)| Val::L(l.into_iter().enumerate().map(|(i, k)| Val::L(vec![k, ws[(i + j) % ws.len()].clone()])).collect())).collect()
        }
        Ty::Set(t) => dedup(lists(t, lvl, None, 2).into_iter().map(dedup).collect()).into_iter().map(Val::L).collect(),
        Ty::RefCell(t) => values(t, lvl),
        Ty::Dur => {
            let mut v = vec![(0x0102030405060708, 0x0a0b0c0d), (0, 0), (u64::MAX, 999_999_999)];
            if lvl >= 1 {
                for s in words(8, lvl.min(2)) { v.push((s as u64, 123_456_789)) }
                for n in words(4, lvl.min(2)) { if n < 1_000_000_000 { v.push((77, n as u32)) } }
                v.push((u64::MAX, 0));
                v.push((1, 999_999_999));
            }
            dedup(v).into_iter().map(|(s, n)| Val::Dur(s, n)).collect()
        }
        Ty::Time => {
            let g = 1_000_000_000i128;
            let mut v = vec![1_730_631_721 * g, -778_231_800 * g - 1, 0];
            if lvl >= 1 {
                for s in words(8, lvl.min(2)) {
                    let s = s as u64 as i64 as i128;
                    for d in [0, 1, -1, g - 1, 1 - g, g / 2, -g / 2] {
                        let t = s * g + d;
                        // Representable as a system time, and its seconds,
                        // truncated, as 64 bits.
                        if t >= i64::MIN as i128 * g && t < (1i128 << 63) * g { v.push(t) }
                    }
                }
            }
            dedup(v).into_iter().map(Val::T).collect()
        }
        Ty::V4 | Ty::V6 => {
            let mut v = words(if *ty == Ty::V4 { 4 } else { 16 }, lvl);
            if lvl >= 1 { v.extend(special(ty)) }
            dedup(v).into_iter().map(Val::U).collect()
        }
        Ty::Ip => either(values(&Ty::V4, lvl), values(&Ty::V6, lvl)),
        Ty::Sock => either(values(&Ty::Sock4, lvl), values(&Ty::Sock6, lvl)),
        Ty::Sock4 => product(&[Ty::V4, Ty::UInt(2)], lvl).into_iter().map(Val::L).collect(),
        Ty::Sock6 => product(&[Ty::V6, Ty::UInt(2), Ty::UInt(4), Ty::UInt(4)], lvl).into_iter().map(Val::L).collect(),
        Ty::Enum(repr, vs) => vs.iter().enumerate().filter(|(_, (d, _))| disc_fits(repr, *d))
            .flat_map(|(i, (_, ts))| product(ts, lvl).into_iter().map(move |l| Val::Var(i, l))).collect(),
    }
}

pub fn disc_fits(repr: &Ty, d: i128) -> bool {
    match repr { Ty::Usize => (0..=65535).contains(&d), Ty::Isize => (-32768..=32767).contains(&d), _ => true }
}

fn either(a: Vec<Val>, b: Vec<Val>) -> Vec<Val> {
    let mut v = Vec::new();
    for i in 0..a.len().max(b.len()) {
        if let Some(x) = a.get(i) { v.push(Val::Var(0, vec![x.clone()])) }
        if let Some(x) = b.get(i) { v.push(Val::Var(1, vec![x.clone()])) }
    }
    v
}

/// Values outside of the domain of the format, one offence each (so that it
/// is known which error must be reported), with the offence at every place.
pub fn bad_values(ty: &Ty, lvl: u32) -> Vec<Val> {
    let at = |ts: &[Ty]| -> Vec<Vec<Val>> {
        let base: Vec<Vec<Val>> = ts.iter().map(|t| values(t, 0)).collect();
        if base.iter().any(|b| b.is_empty()) { return vec![] }
        let mut out = Vec::new();
        for (i, t) in ts.iter().enumerate() {
            for b in bad_values(t, lvl) {
                let mut l: Vec<Val> = base.iter().map(|b| b[0].clone()).collect();
                l[i] = b;
                out.push(l);
            }
        }
        out
    };
    match ty {
        Ty::Usize => {
            let mut v: Vec<u128> = vec![65536, 65537, 131071, 131072, u64::MAX as u128, 1 << 63, (1 << 63) - 1, 0x1_0000_0000, 0x1_0001];
            if lvl >= 1 { for b in 16..64 { v.push(1 << b); v.push((1 << b) + 1); v.push((1u128 << b) | 0xffff) } }
            if lvl >= 2 { v.extend(65536..131_100) }
            dedup(v).into_iter().map(Val::U).collect()
        }
        Ty::Isize => {
            let mut v: Vec<i128> = vec![32768, -32769, 65535, 65536, -65536, -65535, i64::MAX as i128, i64::MIN as i128, 0xffff_8000, -0x1_0000_0000];
            if lvl >= 1 { for b in 15..63 { v.push(1 << b); v.push(-(1 << b) - 1); v.push((1i128 << b) + 5) } }
            if lvl >= 2 { v.extend(32768..66_000); v.extend(-66_000..=-32769) }
            dedup(v).into_iter().map(Val::I).collect()
        }
        Ty::NonZero(t) | Ty::RefCell(t) => bad_values(t, lvl),
        Ty::Opt(t) => bad_values(t, lvl).into_iter().map(|v| opt(Some(v))).collect(),
        Ty::Res(t, e) => bad_values(t, lvl).into_iter().map(|v| Val::Ok(Box::new(v)))
            .chain(bad_values(e, lvl).into_iter().map(|v| Val::Err(Box::new(v)))).collect(),
        Ty::Bound(t) => bad_values(t, lvl).into_iter().flat_map(|v| [Val::Var(0, vec![v.clone()]), Val::Var(1, vec![v])]).collect(),
        Ty::Arr(t, n) => {
            if *n <= 12 { return at(&vec![(**t).clone(); *n]).into_iter().map(Val::L).collect() }
            late(t, *n, lvl)
        }
        Ty::Seq(t, cap) => {
            let mut out = Vec::new();
            for n in [1usize, 2, 3, 4, 17] {
                if cap.is_some_and(|c| n > c) { continue }
                out.extend(at(&vec![(**t).clone(); n]).into_iter().map(Val::L));
            }
            for n in [40usize, 300, 1000, 65535] { if cap.is_none_or(|c| c >= n) { out.extend(late(t, n, lvl)) } }
            if cap.is_none_or(|c| c > 65537) {
                let v = values(t, 0);
                for n in [65536usize, 65537, 70000, 131072] {
                    if cap.is_some_and(|c| n > c) { continue }
                    if lvl == 0 && n > 65536 { continue }
                    out.push(Val::L(v.iter().cycle().take(n).cloned().collect()));
                }
            }
            out
        }
        Ty::Str(cap) if cap.is_none_or(|c| c > 65537) => [65536usize, 65537, 66000, 131072].iter()
            .flat_map(|n| [Val::S("abc".chars().cycle().take(*n).collect()), Val::S("é".repeat(n.div_ceil(2)))]).collect(),
        Ty::CStr => [65536usize, 65537, 131072].iter().map(|n| Val::Z(vec![0x55; *n])).collect(),
        Ty::Tup(ts) | Ty::Struct(ts) => at(ts).into_iter().map(Val::L).collect(),
        Ty::Map(k, w) => {
            let mut out: Vec<Val> = Vec::new();
            for n in [1usize, 3] {
                let ks: Vec<Val> = values(k, 1).into_iter().take(n).collect();
                let w0 = values(w, 0).remove(0);
                if ks.len() < n { continue }
                for i in 0..n {
                    for b in bad_values(w, lvl) {
                        out.push(Val::L((0..n).map(|j| Val::L(vec![ks[j].clone(), if i == j { b.clone() } else { w0.clone() }])).collect()));
                    }
                    for b in bad_values(k, lvl) {
                        out.push(Val::L((0..n).map(|j| Val::L(vec![if i == j { b.clone() } else { ks[j].clone() }, w0.clone()])).collect()));
                    }
                }
            }
            if lvl >= 1 {
                let l = late(&Ty::Tup(vec![(**k).clone(), (**w).clone()]), 300, lvl);
                out.extend(l.into_iter().map(|l| { let Val::L(l) = l else { unreachable!() }; Val::L(distinct(l, |v| { let Val::L(l) = v else { unreachable!() }; &mut l[0] })) }));
            }
            if matches!(**k, Ty::UInt(4 | 8 | 16)) {
                let w0 = values(w, 0).remove(0);
                for n in [65536u128, 65537, 131072] { out.push(Val::L((0..n).map(|i| Val::L(vec![Val::U(i * 3), w0.clone()])).collect())) }
            }
            out
        }
        Ty::Set(t) => {
            let mut out: Vec<Val> = Vec::new();
            for n in [1usize, 3] {
                let ks: Vec<Val> = values(t, 1).into_iter().take(n).collect();
                if ks.len() < n { continue }
                for i in 0..n { for b in bad_values(t, lvl) { out.push(Val::L((0..n).map(|j| if i == j { b.clone() } else { ks[j].clone() }).collect())) } }
            }
            out.extend(late(t, 300, lvl).into_iter().map(|l| { let Val::L(l) = l else { unreachable!() }; Val::L(distinct(l, |v| v)) }));
            if matches!(**t, Ty::UInt(4 | 8 | 16)) { for n in [65536u128, 65537, 131072] { out.push(Val::L((0..n).map(|i| Val::U(i * 3)).collect())) } }
            out
        }
        Ty::Enum(repr, vs) => vs.iter().enumerate().flat_map(|(i, (d, ts))| {
            if disc_fits(repr, *d) { at(ts).into_iter().map(|l| Val::Var(i, l)).collect::<Vec<_>>() }
            else { product(ts, 0).into_iter().map(|l| Val::Var(i, l)).collect() }
        }).collect(),
        _ => vec![],
    }
}

/// Places in long lists: the ends, and the neighbourhoods of powers of two.
pub fn late_places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, n / 3, n.saturating_sub(2), n.saturating_sub(1)];
    let mut p = 16;
    while p <= n { v.extend([p - 1, p, p + 1]); p *= 2 }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}

/// Makes the keys differ, where they are numbers that may be anything small.
fn distinct(mut l: Vec<Val>, key: impl Fn(&mut Val) -> &mut Val) -> Vec<Val> {
    for (i, v) in l.iter_mut().enumerate() { if let Val::U(x) = key(v) { if *x <= 65535 { *x = 1000 + i as u128 } } }
    let mut seen = std::collections::HashSet::new();
    l.retain_mut(|v| seen.insert(key(v).clone()));
    l
}

/// Long lists of which one element, at every such place, is outside of the
/// domain.
fn late(t: &Ty, n: usize, lvl: u32) -> Vec<Val> {
    let good = values(t, 0);
    let bad = bad_values(t, 0);
    if lvl == 0 || good.is_empty() { return vec![] }
    let Some(bad) = bad.first() else { return vec![] };
    late_places(n).into_iter().map(|at| Val::L((0..n).map(|i| if i == at { bad.clone() } else { good[i % good.len()].clone() }).collect())).collect()
}

/// A value whose encoding is as long as that of any value of the type.
pub fn biggest(ty: &Ty) -> Val {
    use crate::model::sizes;
    let all = |ts: &[Ty]| ts.iter().map(biggest).collect::<Vec<_>>();
    match ty {
        Ty::Opt(t) => opt(Some(biggest(t))),
        Ty::Res(t, e) => if sizes(t).1 >= sizes(e).1 { Val::Ok(Box::new(biggest(t))) } else { Val::Err(Box::new(biggest(e))) },
        Ty::Bound(t) => Val::Var(1, vec![biggest(t)]),
        Ty::Arr(t, n) => Val::L(vec![biggest(t); *n]),
        Ty::Seq(t, c) => Val::L(vec![biggest(t); c.unwrap_or(3).min(65535)]),
        Ty::Str(c) => Val::S("x".repeat(c.unwrap_or(3).min(65535))),
        Ty::Tup(ts) | Ty::Struct(ts) => Val::L(all(ts)),
        Ty::RefCell(t) => biggest(t),
        Ty::Ip => Val::Var(1, all(&[Ty::V6])),
        Ty::Sock => Val::Var(1, all(&[Ty::Sock6])),
        Ty::Enum(r, vs) => {
            let i = (0..vs.len()).filter(|i| disc_fits(r, vs[*i].0)).max_by_key(|i| sizes(&Ty::Tup(vs[*i].1.clone())).1).unwrap();
            Val::Var(i, all(&vs[i].1))
        }
        t => values(t, 0).remove(0),
    }
}
