"""Writes the programs of C16: all type definitions of a bounded grammar.

Every definition comes with its binding to the model, made from the grammar
alone: field types in order, discriminants as computed here.
"""
import itertools
import os

REPRS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", None]
BITS = dict(u8=8, i8=8, u16=16, i16=16, u32=32, i32=32, u64=64, i64=64, u128=128, i128=128, usize=64, isize=64)


def span(r):
    r = r or "isize"
    n = BITS[r]
    return (0, 2 ** n - 1) if r[0] == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)


def i128(v):
    """As the model holds discriminants."""
    v &= 2 ** 128 - 1
    v = v - 2 ** 128 if v >= 2 ** 127 else v
    return "i128::MIN" if v == -2 ** 127 else str(v)


class Out:
    def __init__(self):
        self.n = 0
        self.groups = []  # (bin, name, recursive, [definitions], [entries])

    def group(self, bin, name, recursive=False):
        g = dict(bin=bin, name=name, recursive=recursive, defs=[], entries=[])
        self.groups.append(g)
        return g

    def name(self):
        self.n += 1
        return f"T{self.n}"


def fields(kind, fs):
    """Source of a field list."""
    if kind == "unit":
        return ""
    if kind == "tuple":
        return "(" + ", ".join(t for _, t in fs) + ")"
    return " { " + ", ".join(f"{n}: {t}" for n, t in fs) + " }"


def build(path, kind, fs):
    if kind == "unit":
        return path
    if kind == "tuple":
        return path + "(" + ", ".join("next(&mut l)" for _ in fs) + ")"
    return path + " { " + ", ".join(f"{n}: next(&mut l)" for n, _ in fs) + " }"


def pattern(path, kind, fs):
    vs = [f"f{i}" for i in range(len(fs))]
    if kind == "unit":
        return path, vs
    if kind == "tuple":
        return path + "(" + ", ".join(vs) + ")", vs
    return path + " { " + ", ".join(f"{n}: {v}" for (n, _), v in zip(fs, vs)) + " }", vs


def tys(fs):
    return "vec![" + ", ".join(f"<{t} as Sub>::ty()" for _, t in fs) + "]"


def sub_struct(who, path, kind, fs):
    """Binding of a structure; `who` may be an instance of a generic one."""
    p, vs = pattern(path, kind, fs)
    return (f"impl Sub for {who} {{\n  fn ty() -> Ty {{ Ty::Struct({tys(fs)}) }}\n"
            f"  fn build(v: &Val) -> Self {{ let mut l = list(v).iter(); let _ = &mut l; {build(path, kind, fs)} }}\n"
            f"  fn val(&self) -> Val {{ let {p} = self; Val::L(vec![{', '.join(v + '.val()' for v in vs)}]) }}\n}}\n")


def sub_enum(who, path, repr, variants, discs, ty=None):
    """Binding of an enumeration: variants are (name, kind, fields)."""
    vs = ", ".join(f"({i128(d)}, {tys(fs)})" for (_, _, fs), d in zip(variants, discs))
    ty = ty or f"Ty::Enum(Box::new(<{repr or 'isize'} as Sub>::ty()), vec![{vs}])"
    arms, pats = [], []
    for i, (n, k, fs) in enumerate(variants):
        arms.append(f"    {i} => {build(path + '::' + n, k, fs)},")
        p, cs = pattern(path + "::" + n, k, fs)
        pats.append(f"    {p} => Val::Var({i}, vec![{', '.join(c + '.val()' for c in cs)}]),")
    a, p = "\n".join(arms), "\n".join(pats)
    if not variants:
        return (f"impl Sub for {who} {{\n  fn ty() -> Ty {{ {ty} }}\n  fn build(_: &Val) -> Self {{ panic!() }}\n  fn val(&self) -> Val {{ match *self {{}} }}\n}}\n")
    return (f"impl Sub for {who} {{\n  fn ty() -> Ty {{ {ty} }}\n"
            f"  fn build(v: &Val) -> Self {{ let Val::Var(i, l) = v else {{ panic!() }}; let mut l = l.iter(); let _ = &mut l;\n  match i {{\n{a}\n    _ => panic!() }} }}\n"
            f"  fn val(&self) -> Val {{ match self {{\n{p}\n  }} }}\n}}\n")


ALL = "Encode, Decode, SizedEncode"


def struct(o, g, kind, ts, derives=ALL, attrs="", names=None):
    n = o.name()
    fs = [((names or "abcdefghijklmnopqrstuvwxyz")[i], t) for i, t in enumerate(ts)]
    end = ";" if kind != "named" else ""
    g["defs"].append(f"#[derive({derives})] {attrs}\npub struct {n}{fields(kind, fs)}{end}\n" + sub_struct(n, n, kind, fs))
    g["entries"].append(f'{"sized" if "Sized" in derives else "unsized_"}::<{n}>("{n} struct{fields(kind, fs)}")')
    return n


def enum(o, g, repr, variants, texts=None, discs=None, derives=ALL, attrs="", name=None):
    """`texts` are the explicit discriminants, None where implicit."""
    n = name or o.name()
    texts = texts or [None] * len(variants)
    if discs is None:
        discs, at = [], 0
        for t in texts:
            at = int(t, 0) if t is not None else at
            discs.append(at)
            at += 1
    r = f"#[repr({repr})] " if repr else ""
    body = ", ".join(v + fields(k, fs) + (f" = {t}" if t is not None else "") for (v, k, fs), t in zip(variants, texts))
    g["defs"].append(f"#[derive({derives})] {r}{attrs}\npub enum {n} {{ {body} }}\n" + sub_enum(n, n, repr, variants, discs))
    show = (r + "enum { " + body + " }").replace('"', "'").replace("\\", "")
    if len(show) > 160:
        show = show[:160] + ".."
    g["entries"].append(f'{"sized" if "Sized" in derives else "unsized_"}::<{n}>(r##"{n} {show}"##)')
    return n


def named(ts):
    return list(zip("abcdefghij", ts))


# Shapes of variants: all ways of fields, sizes that do not go with their
# number.
SHAPES = [
    ("unit", []), ("tuple", []), ("named", []),
    ("tuple", ["u8"]), ("tuple", ["u64"]), ("named", ["u8", "u8"]), ("tuple", ["u8", "u16", "u8"]), ("named", ["SizedStr<9>"]),
]


def shapes(o, thorough):
    """All selections of up to two with every representation, of three with
    some in turn (thorough: every one), of four with one in turn."""
    k = 0
    for n in range(5 if thorough else 4):
        for sel in itertools.product(range(len(SHAPES)), repeat=n):
            k += 1
            if n == 0:
                rs = [None]
            elif n < 3 or (thorough and n == 3):
                rs = REPRS
            elif n == 3:
                rs = [REPRS[k % 13], REPRS[(k + 5) % 13]]
            else:
                # Of the three empty shapes, one in turn.
                if any(s < 3 and s != k % 3 for s in sel):
                    continue
                rs = [REPRS[k % 13]]
            for r in rs:
                b = o.n % (12 if thorough else 4)
                t = f"enumerations of {n} variants, part {b}"
                g = next((g for g in o.groups if g["name"] == t), None) or o.group(f"shapes{b}", t)
                enum(o, g, r, [("ABCD"[i], SHAPES[s][0], named(SHAPES[s][1])) for i, s in enumerate(sel)])


UNEVEN = [("unit", []), ("tuple", ["[u8; 100]"]), ("named", ["SizedStr<300>", "u8"]), ("tuple", [f"[u8; {i + 1}]" for i in range(12)]), ("tuple", ["u8"] * 20), ("named", ["u128"])]


def uneven(o, thorough):
    """Variants of very different sizes and numbers of fields, in all orders."""
    g = o.group("shapes1", "enumerations of uneven variants")
    k = 0
    for n in range(1, 5 if thorough else 4):
        for sel in itertools.permutations(range(len(UNEVEN)), n):
            k += 1
            enum(o, g, REPRS[k % 13], [("ABCD"[i], UNEVEN[s][0], [(f"f{j}", t) for j, t in enumerate(UNEVEN[s][1])]) for i, s in enumerate(sel)])


ALPHA = ["u8", "u16", "bool", "char", "Option<u8>", "SizedStr<3>", "usize", "[u16; 2]", "Result<u8, u16>", "Result<char, char>", "()", "PhantomData<String>", "IpAddr", "NonZero<u16>", "SizedSlice<u8, 2>", "(u8, u16)",
         "Bound<u8>", "Duration", "i128", "Cell<u8>", "RefCell<u16>", "Box<u32>", "AtomicU16", "Wrapping<i16>", "f32", "Ipv4Addr", "SocketAddr", "Range<u8>", "[SizedStr<2>; 2]", "isize", "Mutex<u8>"]
BIG = ["Vec<u8>", "String", "CString", "LinkedList<u16>", "Vec<Option<char>>", "Map<u8, u8>", "Set<u8>", "Box<String>", "Option<String>"]


def structures(o, thorough):
    g = o.group("structs0", "structures of no or one field")
    for k in ("unit", "tuple", "named"):
        struct(o, g, k, [])
    for t in ALPHA:
        struct(o, g, "tuple", [t])
        struct(o, g, "named", [t])
    for t in BIG:
        struct(o, g, "tuple", [t], "Encode, Decode")
        struct(o, g, "named", [t, "u8"], "Encode, Decode")
        struct(o, g, "tuple", ["u8", t], "Encode, Decode")
    g, h = (o.group(f"structs{b}", f"structures of two fields, part {b}") for b in (1, 2))
    for i, (a, b) in enumerate(itertools.product(ALPHA, repeat=2)):
        struct(o, (g, h)[i % 2], ("tuple", "named")[i % 2], [a, b])
        if thorough:
            struct(o, (g, h)[i % 2], ("named", "tuple")[i % 2], [a, b])
    three = ["u8", "u16", "char", "Option<u8>", "SizedStr<3>"] + (["usize", "bool", "[u16; 2]", "IpAddr", "()"] if thorough else [])
    g, h = (o.group(f"structs{b}", f"structures of three fields, part {b}") for b in (3, 4))
    for i, ts in enumerate(itertools.product(three, repeat=3)):
        struct(o, (g, h)[i % 2], ("tuple", "named")[i % 2], ts)
    g = o.group("structs0", "structures of many fields")
    for n in (4, 5, 8, 12, 13, 16, 25):
        for k in ("tuple", "named"):
            struct(o, g, k, [f"[u8; {i + 1}]" for i in range(n)])
            struct(o, g, k, [f"[u8; {n - i}]" for i in range(n)])
    # Names in orders other than the alphabet's.
    for ns in (["c", "b", "a"], ["b", "c", "a"], ["z10", "z9", "z1"]):
        struct(o, g, "named", ["u8", "u16", "u32"], names=ns)


def discriminants(o, thorough):
    """All assignments of explicit and implicit discriminants to three
    variants, over values for each representation."""
    for ri, r in enumerate(REPRS):
        lo, hi = span(r)
        vals = [1, hi - 1, lo, 5] if r and r[0] == "u" else [1, hi - 1, lo, -2]
        if r in ("usize", "isize", None):
            vals[1:3] = [65534, 65535] if r == "usize" else [32766, -32768]
        vals += [hi, 0, 200 if r == "u8" else 100]
        if thorough:
            vals += [hi - 2, lo + 1 if lo else 17, 2] if hi < 2 ** 63 else [2 ** 63 - 1, 2 ** 63 - 2, 2 ** 32 - 1]
            vals = list(dict.fromkeys(vals))
        g = o.group(f"discs{ri}", f"discriminants of {r or 'no representation'}")
        for i, pick in enumerate(itertools.product([None] + vals, repeat=3)):
            ds, at = [], 0
            for p in pick:
                at = p if p is not None else at
                ds.append(at)
                at += 1
            if len(set(ds)) < 3 or min(ds) < lo or max(ds) > hi:
                continue
            if not thorough and pick.count(None) == 0 and (i // 2) % 2:
                continue
            kinds = ["unit", "unit", "unit"] if r is None else [SHAPES[s][0] for s in ((0, 3, 5), (3, 0, 7), (5, 3, 0), (0, 0, 0))[i % 4]]
            fs = [[], [], []] if r is None else [named(SHAPES[s][1]) for s in ((0, 3, 5), (3, 0, 7), (5, 3, 0), (0, 0, 0))[i % 4]]
            # Arbitrary names, so that nothing goes by their order.
            vs = [(n, k, f) for n, k, f in zip(("Zeta", "Alpha", "Mid"), kinds, fs)]
            enum(o, g, r, vs, texts=[None if p is None else str(p) for p in pick], discs=ds)
    g = o.group("discs0", "ways to write discriminants")
    U = lambda *ns: [(n, "unit", []) for n in ns]
    MIX = [("A", "unit", []), ("B", "tuple", named(["u16"])), ("C", "named", named(["u8", "char"]))]
    for r, ts, ds in [
        ("u8", ["0x10", None, "0b1111"], [16, 17, 15]), ("u16", ["0o17", None, "1_000"], [15, 16, 1000]), ("u32", ["0x_ff_u32", None, "3u32"], [255, 256, 3]),
        ("u8", ["b'a'", None, "b'\\n'"], [97, 98, 10]), ("i8", ["-0x7f", None, "-0b1"], [-127, -126, -1]), ("i16", ["-1", None, "1i16"], [-1, 0, 1]),
        ("u8", ["(7)", None, "((9))"], [7, 8, 9]), ("u8", ["1 << 3", None, "1 + 2 * 2"], [8, 9, 5]), ("u16", ["!0", "!0 - 1", None], [65535, 65534, 65535][:2] + [65535]),
        ("u8", ["SEVEN", None, "SEVEN + 4"], [7, 8, 11]), ("u8", ["u8::MAX", "u8::MIN", None], [255, 0, 1]), ("i64", ["i64::MIN", None, "i64::MAX"], [-2 ** 63, -2 ** 63 + 1, 2 ** 63 - 1]),
        ("u32", ["seven()", None, "seven() * 3"], [7, 8, 21]), ("u16", ["{ 5 }", None, "{ let x = 3; x * 7 }"], [5, 6, 21]), ("u8", ["b\"xyz\"[1]", None, "\"four\".len() as u8"], [121, 122, 4]),
        ("isize", ["-SEVEN_I", None, "Other::Y as isize"], [-7, -6, 41]), ("u8", ["if SEVEN > 3 { 40 } else { 50 }", None, "match SEVEN { 7 => 70, _ => 0 }"], [40, 41, 70]),
        ("u128", ["1 << 127", None, "u128::MAX"], [2 ** 127, 2 ** 127 + 1, 2 ** 128 - 1]), ("i128", ["i128::MIN", None, "i128::MAX"], [-2 ** 127, -2 ** 127 + 1, 2 ** 127 - 1]),
        ("u8", ["value0()", None, "value()"], [9, 10, 99]), ("u8", ["stream()", None, "this() + discriminant()"], [3, 4, 24]), ("i8", ["-128", None, None], [-128, -127, -126]),
    ]:
        if len(set(ds)) < 3:
            continue
        # Functions of the same names as the derived code's variables.
        fns = "".join(f"pub const fn {n}() -> u8 {{ {v} }} " for n, v in (("value0", 9), ("value", 99), ("stream", 3), ("this", 11), ("discriminant", 13)))
        n = o.name()
        if "value()" in ts or "stream()" in ts:
            g["defs"].append(f"mod m{n} {{ use super::*; {fns}\n")
        else:
            enum(o, g, r, MIX, texts=ts, discs=ds, name=n)
            enum(o, g, r, U("P", "Q", "R"), texts=ts, discs=ds)
            continue
        enum(o, g, r, [(a, "unit", []) for a in "ABC"], texts=ts, discs=ds, name=n)
        g["defs"].append("}\npub use m%s::%s;\n" % (n, n))
    g = o.group("discs1", "many variants")
    for r, n, step in ((None, 300, 1), ("u8", 256, 1), ("u16", 300, 1), ("i8", 256, 1), ("i16", 257, 1), ("u32", 40, 3), ("u64", 130, 1), ("isize", 130, 2)):
        first = -128 if r == "i8" else 0
        vs = [(f"V{i}", "tuple" if i % 5 == 2 else "unit", named(["u8"] if i % 5 == 2 else [])) for i in range(n)]
        texts = [str(first + i * step) if (i == 0 and first) or step > 1 else None for i in range(n)]
        if step == 3:
            texts = [None if i % 3 else t for i, t in enumerate(texts)]
        ds, at = [], 0
        for t in texts:
            at = int(t) if t is not None else at
            ds.append(at)
            at += 1
        if r is None:
            vs = [(v, "unit", []) for v, _, _ in vs] if any(texts) else vs
        enum(o, g, r, vs, texts=texts, discs=ds)
    # Descending and shuffled.
    for r in ("u8", "i16", "u64"):
        ds = [9, 8, 7, 100, 3, 50, 49, 51]
        enum(o, g, r, [(f"V{i}", "tuple", named(["u8"] * (i % 3))) for i in range(8)], texts=[str(d) for d in ds], discs=ds)


ENC = "Encode<Error: Into<oct::error::GenericEncodeError>>"
DEC = "Decode<Error: Into<oct::error::GenericDecodeError>>"


def generics(o):
    g = o.group("misc", "generic definitions")

    def inst(text, who, path, kind, fs, max=True):
        g["defs"].append(text + "".join(sub_struct(w, path, kind, f) for w, f in zip(who, fs)))
        for w in who:
            g["entries"].append(f'{"sized" if max else "unsized_"}::<{w}>("{w}")')

    B = f"{ENC} + {DEC} + SizedEncode"
    inst(f"#[derive({ALL})] pub struct G1<T: {B}>(T, u8);\n", ["G1<u16>", "G1<char>", "G1<Option<bool>>", "G1<SizedStr<4>>", "G1<G1<u8>>"], "G1", "tuple",
         [[("0", t), ("1", "u8")] for t in ("u16", "char", "Option<bool>", "SizedStr<4>", "G1<u8>")])
    g["defs"].append(sub_struct("G1<u8>", "G1", "tuple", [("0", "u8"), ("1", "u8")]))
    inst(f"#[derive({ALL})] pub struct G2<T, U> where T: {B}, U: {B} {{ b: U, a: T, c: [T; 2] }}\n", ["G2<u16, u8>", "G2<char, ()>"], "G2", "named",
         [[("b", "u8"), ("a", "u16"), ("c", "[u16; 2]")], [("b", "()"), ("a", "char"), ("c", "[char; 2]")]])
    inst(f"#[derive({ALL})] pub struct G3<const N: usize>([u8; N], SizedStr<N>);\n", ["G3<0>", "G3<3>"], "G3", "tuple", [[("0", f"[u8; {n}]"), ("1", f"SizedStr<{n}>")] for n in (0, 3)])
    inst(f"#[derive({ALL})] pub struct G4<T: {B}, const N: usize, const M: usize> {{ x: SizedSlice<T, N>, y: [T; M] }}\n", ["G4<u16, 2, 1>", "G4<bool, 1, 3>"], "G4", "named",
         [[("x", f"SizedSlice<{t}, {n}>"), ("y", f"[{t}; {m}]")] for t, n, m in (("u16", 2, 1), ("bool", 1, 3))])
    inst(f"#[derive({ALL})] pub struct G5<T: {B} = u16, const N: usize = 2> {{ x: [T; N] }}\n", ["G5", "G5<u8>", "G5<u8, 1>"], "G5", "named",
         [[("x", t)] for t in ("[u16; 2]", "[u8; 2]", "[u8; 1]")])
    inst(f"#[derive({ALL})] pub struct G6<T>(PhantomData<T>, u8);\n", ["G6<String>", "G6<Vec<u8>>"], "G6", "tuple", [[("0", f"PhantomData<{t}>"), ("1", "u8")] for t in ("String", "Vec<u8>")])
    inst(f"#[derive({ALL})] pub struct G7<const N: usize, const B: bool, const C: char, const I: i8>([u8; N]);\n", ["G7<2, true, 'x', -1>"], "G7", "tuple", [[("0", "[u8; 2]")]])
    inst(f"#[derive({ALL})] pub struct G8<'a, T: 'a + {B}>(T, PhantomData<&'a T>);\n", ["G8<'static, u16>"], "G8", "tuple", [[("0", "u16"), ("1", "PhantomData<&'static u16>")]])
    inst(f"pub trait Has {{ type X; }}\nimpl Has for u8 {{ type X = u32; }}\n#[derive({ALL})] pub struct G9<T: Has> where T::X: {B} {{ v: T::X }}\n", ["G9<u8>"], "G9", "named", [[("v", "u32")]])
    inst(f"#[derive({ALL})] pub struct G10<T>(T) where T: Copy + {B}, for<'x> &'x T: Sized;\n", ["G10<u16>"], "G10", "tuple", [[("0", "u16")]])
    inst(f"#[derive(Encode, Decode)] pub struct G11<T: {ENC} + {DEC}> {{ l: Vec<T>, o: Option<Box<T>> }}\n", ["G11<u8>", "G11<String>"], "G11", "named",
         [[("l", f"Vec<{t}>"), ("o", f"Option<Box<{t}>>")] for t in ("u8", "String")], max=False)
    inst(f"#[derive({ALL})] pub struct G12<'a, 'b: 'a, T, U: {B}, const N: usize>(U, [u8; N], PhantomData<(&'a T, &'b ())>) where T: 'static;\n", ["G12<'static, 'static, String, u16, 2>"], "G12", "tuple",
         [[("0", "u16"), ("1", "[u8; 2]"), ("2", "PhantomData<(&'static String, &'static ())>")]])
    inst(f"#[derive({ALL})] pub struct G13<const N: usize, T: {B}>(T, [T; N]);\n", ["G13<2, u16>"], "G13", "tuple", [[("0", "u16"), ("1", "[u16; 2]")]])
    for i, (t, vs) in enumerate([
        (f"#[repr(u16)] pub enum GE0<T: {B}> {{ A, B(T) = 9, C {{ x: T, y: u8 }} }}", lambda t: [("A", "unit", []), ("B", "tuple", [("0", t)]), ("C", "named", [("x", t), ("y", "u8")])]),
        (f"pub enum GE1<T = u8, const N: usize = 1> where T: {B} {{ A([T; N]), B, C }}", lambda t: [("A", "tuple", [("0", f"[{t}; 1]")]), ("B", "unit", []), ("C", "unit", [])]),
        (f"pub enum GE2<'a, T: {B}> {{ A(PhantomData<&'a T>), B(T, T) }}", lambda t: [("A", "tuple", [("0", f"PhantomData<&'static {t}>")]), ("B", "tuple", [("0", t), ("1", t)])]),
    ]):
        ds = [0, 9, 10] if i == 0 else [0, 1, 2]
        g["defs"].append(f"#[derive({ALL})] {t}\n")
        for x in ("u16", "char", "Option<u8>"):
            w = f"GE{i}<{chr(39) + 'static, ' if i == 2 else ''}{x}>"
            g["defs"].append(sub_enum(w, f"GE{i}", "u16" if i == 0 else None, vs(x), ds))
            g["entries"].append(f'sized::<{w}>("{w}")')


MISC = r'''
// Names that are also used by the derived code.
#[derive(Encode, Decode, SizedEncode)] pub struct N1 { stream: u8, this: u16, value: u32, value0: u8, value1: u16, discriminant: char, current_size: u8, total_size: u16 }
#[derive(Encode, Decode, SizedEncode)] #[allow(non_camel_case_types)] #[repr(u8)] pub enum N2 { Error, Ok(u8), Err(u16), Some { value: u8, stream: u16 }, None, Result, Self_, Into, value(u8, u16), Infallible }
#[derive(Encode, Decode, SizedEncode)] pub struct N3 { r#type: u8, r#fn: u16, r#match: u8 }
#[derive(Encode, Decode, SizedEncode)] #[allow(non_camel_case_types)] #[repr(i16)] pub enum N4 { r#struct = 4, r#async { r#for: u8, r#in: u16 }, Plain(u8) }
#[derive(Encode, Decode, SizedEncode)] #[allow(non_camel_case_types)] pub struct r#move { pub r#ref: u8 }
#[derive(Encode, Decode, SizedEncode)] #[allow(non_snake_case)] pub struct N5 { Ok: u8, Err: u16, Self_: u8, Decode: u8 }
#[derive(Encode, Decode, SizedEncode)] pub struct N6 { été: u8, 名: u16 }
#[derive(Encode, Decode, SizedEncode)] pub enum N7 { Encode(u8), Decode(u16), SizedEncode, Input, Output }
// Attributes, visibility, other derives.
#[derive(Clone, Debug, PartialEq, Encode)] #[derive(Decode)] /** doc */ #[derive(SizedEncode)] #[non_exhaustive] pub struct A1 { /** a field */ pub a: u8, #[allow(unused)] pub(crate) b: u16, #[cfg(any())] gone: Missing, c: u8 }
#[derive(Encode, Decode, SizedEncode, Default, Debug)] #[repr(u8)] #[allow(dead_code)] pub enum A2 { /** doc */ #[default] X = 3, #[cfg(any())] Gone(Missing), #[allow(unused)] Y, #[doc = "z"] Z { #[doc(hidden)] a: u8 } }
#[derive(Encode, Decode, SizedEncode)] #[repr(C)] pub struct A3 { a: u8, b: u32 }
#[derive(Encode, Decode, SizedEncode)] #[repr(transparent)] pub struct A4(u16);
#[derive(Encode, Decode, SizedEncode)] #[repr(align(32))] pub struct A5(u8, u16);
#[derive(Encode, Decode, SizedEncode)] #[repr(packed)] #[derive(Clone, Copy)] pub struct A6b();
#[derive(Encode, Decode, SizedEncode)] #[must_use] #[deprecated] #[cfg_attr(all(), allow(dead_code))] pub struct A7(u8);
// What is in scope does not matter.
pub mod bare {
	#![no_implicit_prelude]
	#[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)] pub struct S { pub a: u8, pub b: u16 }
	#[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)] #[repr(u8)] pub enum E { A, B(u16), C { a: u8 } = 7 }
}
pub mod shadow {
	#![allow(dead_code, non_camel_case_types)]
	pub struct Result; pub struct Option; pub struct String; pub struct Vec; pub struct Box; pub struct Into; pub trait From {} pub fn Ok() {} pub fn Err() {} pub fn Some() {} pub mod core {} pub mod oct_ {} pub mod std {}
	pub struct Input; pub struct Output; pub struct GenericDecodeError; pub struct EnumDecodeError; pub struct Infallible; pub trait Decode { fn decode(&self) {} } impl<T> Decode for T {} pub trait Encode { fn encode(&self) {} } impl<T> Encode for T {}
	macro_rules! unreachable { () => { compile_error!("wrong macro") } } pub(crate) use unreachable as _unreachable;
	#[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)] pub struct S { pub a: u8, pub b: u16 }
	#[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)] #[repr(u8)] pub enum E { A, B(u16), C { a: u8 } = 7 }
}
// Made by macros.
macro_rules! make {
	($s:ident, $e:ident, $f:ident: $t:ty, $r:ident, $d:literal, $x:expr, $v:vis, $(#[$m:meta])*) => {
		#[derive(Encode, Decode, SizedEncode)] $(#[$m])* $v struct $s { $v $f: $t, $v other: ($t, $t) }
		#[derive(Encode, Decode, SizedEncode)] #[repr($r)] $v enum $e { A($t) = $d, B { $f: $t }, C = $x, D }
	};
}
make!(M1, M2, first: [u8; 2], u16, 3, 2 * 5, pub, #[allow(dead_code)]);
make!(M3, M4, second: SizedStr<2>, i8, -3, -1 - 6, pub, );
// Local definitions.
pub fn local() -> Vec<Entry> {
	#[derive(Encode, Decode, SizedEncode)] pub struct L { a: u8, b: u16 }
	impl Sub for L { fn ty() -> Ty { Ty::Struct(vec![<u8>::ty(), <u16>::ty()]) } fn build(v: &Val) -> Self { let mut l = list(v).iter(); L { a: next(&mut l), b: next(&mut l) } } fn val(&self) -> Val { Val::L(vec![self.a.val(), self.b.val()]) } }
	vec![sized::<L>("local L")]
}
// Definitions in terms of each other.
#[derive(Encode, Decode, SizedEncode)] pub struct C1 { a: N1b, b: [A2; 2], c: Option<C2> }
#[derive(Encode, Decode, SizedEncode)] pub struct N1b(u8, C2);
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum C2 { X(A2), Y { p: A4, q: SizedSlice<A2, 2> }, Z }
// Forms that can only be encoded.
#[derive(Encode)] pub struct R1<'a> { a: &'a str, b: &'a [u16], c: &'a mut u8 }
#[derive(Encode, Decode)] pub struct R1o { a: String, b: Vec<u16>, c: u8 }
#[derive(Encode, SizedEncode)] pub struct R2<'a, T: Encode<Error: Into<oct::error::GenericEncodeError>> + SizedEncode>(&'a T, &'a [u8; 2]);
#[derive(Encode, Decode, SizedEncode)] pub struct R2o(u16, [u8; 2]);
#[derive(Encode)] #[repr(u8)] pub enum R3<'a, 'b> { A(&'a str) = 4, B { x: &'b [u8], y: &'a u8 }, C }
#[derive(Encode, Decode)] #[repr(u8)] pub enum R3o { A(String) = 4, B { x: Vec<u8>, y: u8 }, C }
// Fields need not be sized.
#[derive(Encode)] pub struct R4<T: ?Sized + Encode<Error: Into<oct::error::GenericEncodeError>>> { a: u8, b: T }
#[derive(Encode, Decode)] pub struct R4o { a: u8, b: Vec<u8> }
'''

RECURSIVE = r'''
#[derive(Encode, Decode)] #[repr(u8)] pub enum Tree { Leaf(u8) = 5, Node { l: Box<Tree>, r: Box<Tree> }, Many(Vec<Tree>) = 1 }
#[derive(Encode, Decode)] pub struct Chain { v: u16, next: Option<Box<Chain>> }
pub fn tree(d: usize) -> Ty {
	let t = if d == 0 { Ty::Enum(Box::new(<u8>::ty()), vec![(5, vec![<u8>::ty()])]) } else { return Ty::Enum(Box::new(<u8>::ty()), vec![(5, vec![<u8>::ty()]), (6, vec![tree(d - 1), tree(d - 1)]), (1, vec![Ty::Seq(Box::new(tree(d - 1)), None)])]) };
	t
}
impl Sub for Tree {
	fn ty() -> Ty { unreachable!() }
	fn build(v: &Val) -> Self { let Val::Var(i, l) = v else { panic!() }; match i { 0 => Tree::Leaf(Sub::build(&l[0])), 1 => Tree::Node { l: Sub::build(&l[0]), r: Sub::build(&l[1]) }, _ => Tree::Many(Sub::build(&l[0])) } }
	fn val(&self) -> Val { match self { Tree::Leaf(x) => Val::Var(0, vec![x.val()]), Tree::Node { l, r } => Val::Var(1, vec![l.val(), r.val()]), Tree::Many(v) => Val::Var(2, vec![v.val()]) } }
}
pub fn chain(d: usize) -> Ty { Ty::Struct(vec![<u16>::ty(), Ty::Opt(Box::new(if d == 0 { Ty::Enum(Box::new(<u8>::ty()), vec![]) } else { chain(d - 1) }))]) }
impl Sub for Chain {
	fn ty() -> Ty { unreachable!() }
	fn build(v: &Val) -> Self { let l = list(v); Chain { v: Sub::build(&l[0]), next: match &l[1] { Val::Opt(Some(x)) => Some(Box::new(Sub::build(x))), _ => None } } }
	fn val(&self) -> Val { Val::L(vec![self.v.val(), Val::Opt(self.next.as_ref().map(|x| Box::new(x.val())))]) }
}
'''


def misc(o):
    generics(o)
    g = o.group("misc", "names, scopes, attributes and macros")
    g["defs"].append(MISC)
    S = lambda n, path, kind, fs: (g["defs"].append(sub_struct(n, path, kind, fs)), g["entries"].append(f'sized::<{n}>("{n}")'))
    E = lambda n, repr, vs, ds: (g["defs"].append(sub_enum(n, n, repr, vs, ds)), g["entries"].append(f'sized::<{n}>("{n}")'))
    S("N1", "N1", "named", [("stream", "u8"), ("this", "u16"), ("value", "u32"), ("value0", "u8"), ("value1", "u16"), ("discriminant", "char"), ("current_size", "u8"), ("total_size", "u16")])
    E("N2", "u8", [("Error", "unit", []), ("Ok", "tuple", named(["u8"])), ("Err", "tuple", named(["u16"])), ("Some", "named", [("value", "u8"), ("stream", "u16")]), ("None", "unit", []), ("Result", "unit", []),
                   ("Self_", "unit", []), ("Into", "unit", []), ("value", "tuple", named(["u8", "u16"])), ("Infallible", "unit", [])], list(range(10)))
    S("N3", "N3", "named", [("r#type", "u8"), ("r#fn", "u16"), ("r#match", "u8")])
    E("N4", "i16", [("r#struct", "unit", []), ("r#async", "named", [("r#for", "u8"), ("r#in", "u16")]), ("Plain", "tuple", named(["u8"]))], [4, 5, 6])
    S("r#move", "r#move", "named", [("r#ref", "u8")])
    S("N5", "N5", "named", [("Ok", "u8"), ("Err", "u16"), ("Self_", "u8"), ("Decode", "u8")])
    S("N6", "N6", "named", [("été", "u8"), ("名", "u16")])
    E("N7", None, [("Encode", "tuple", named(["u8"])), ("Decode", "tuple", named(["u16"])), ("SizedEncode", "unit", []), ("Input", "unit", []), ("Output", "unit", [])], list(range(5)))
    S("A1", "A1", "named", [("a", "u8"), ("b", "u16"), ("c", "u8")])
    E("A2", "u8", [("X", "unit", []), ("Y", "unit", []), ("Z", "named", [("a", "u8")])], [3, 4, 5])
    S("A3", "A3", "named", [("a", "u8"), ("b", "u32")])
    S("A4", "A4", "tuple", [("0", "u16")])
    S("A5", "A5", "tuple", [("0", "u8"), ("1", "u16")])
    S("A6b", "A6b", "tuple", [])
    S("A7", "A7", "tuple", [("0", "u8")])
    for m in ("bare", "shadow"):
        S(f"{m}::S", f"{m}::S", "named", [("a", "u8"), ("b", "u16")])
        E(f"{m}::E", "u8", [("A", "unit", []), ("B", "tuple", named(["u16"])), ("C", "named", [("a", "u8")])], [0, 1, 7])
    for s, e, f, t, r, ds in (("M1", "M2", "first", "[u8; 2]", "u16", [3, 4, 10, 11]), ("M3", "M4", "second", "SizedStr<2>", "i8", [-3, -2, -7, -6])):
        S(s, s, "named", [(f, t), ("other", f"({t}, {t})")])
        E(e, r, [("A", "tuple", named([t])), ("B", "named", [(f, t)]), ("C", "unit", []), ("D", "unit", [])], ds)
    S("C1", "C1", "named", [("a", "N1b"), ("b", "[A2; 2]"), ("c", "Option<C2>")])
    S("N1b", "N1b", "tuple", [("0", "u8"), ("1", "C2")])
    E("C2", "u8", [("X", "tuple", named(["A2"])), ("Y", "named", [("p", "A4"), ("q", "SizedSlice<A2, 2>")]), ("Z", "unit", [])], [0, 1, 2])
    g["entries"].append("local().remove(0)")
    g["defs"].append(sub_struct("R1o", "R1o", "named", [("a", "String"), ("b", "Vec<u16>"), ("c", "u8")]) + sub_struct("R2o", "R2o", "tuple", [("0", "u16"), ("1", "[u8; 2]")])
                     + sub_enum("R3o", "R3o", "u8", [("A", "tuple", named(["String"])), ("B", "named", [("x", "Vec<u8>"), ("y", "u8")]), ("C", "unit", [])], [4, 5, 6])
                     + sub_struct("R4o", "R4o", "named", [("a", "u8"), ("b", "Vec<u8>")]))
    g["entries"] += [
        'form::<R1o>("R1", None, |mut v, o| enc(&R1 { a: &v.a, b: &v.b, c: &mut v.c }, o))',
        'form::<R2o>("R2", Some(<R2<u16>>::MAX_ENCODED_SIZE), |v, o| enc(&R2(&v.0, &v.1), o))',
        'form::<R3o>("R3", None, |v, o| enc(&match &v { R3o::A(s) => R3::A(s), R3o::B { x, y } => R3::B { x, y }, R3o::C => R3::C }, o))',
        'form::<R4o>("R4<[u8]>", None, |v, o| { let n = v.b.len(); if n != 2 { return enc(&R4 { a: v.a, b: v.b }, o) } let r: &R4<[u8]> = &R4 { a: v.a, b: [v.b[0], v.b[1]] }; enc(r, o) })',
    ]
    g = o.group("misc", "recursive definitions", True)
    g["defs"].append(RECURSIVE)
    g["entries"] += ['of::<Tree>("Tree", tree(2))', 'of::<Chain>("Chain", chain(3))']


HEAD = """// Written by tools/mkderive.py.
#![allow(dead_code, unused_imports, unused_parens, unused_braces, non_camel_case_types, unreachable_code, deprecated, mixed_script_confusables, uncommon_codepoints, unused_macros, clippy::all)]
use derive_grammar::*;
use oct::{SizedSlice, SizedStr};
use std::cell::{Cell, RefCell};
use std::collections::LinkedList;
use std::ffi::CString;
use std::marker::PhantomData;
use std::net::*;
use std::num::{NonZero, Wrapping};
use std::ops::{Bound, Range};
use std::sync::atomic::*;
use std::sync::Mutex;
use std::time::Duration;
use vh::subj::{Map, Set};
const SEVEN: u8 = 7;
const SEVEN_I: isize = 7;
const fn seven() -> u32 { 7 }
enum Other { X = 40, Y }
"""


def write(folder, thorough, only=None):
    """Writes the programs; returns their names."""
    o = Out()
    shapes(o, thorough)
    uneven(o, thorough)
    structures(o, thorough)
    discriminants(o, thorough)
    misc(o)
    bins = {}
    for g in sorted(o.groups, key=lambda g: g['bin']):
        bins.setdefault(g["bin"], []).append(g)
    os.makedirs(folder, exist_ok=True)
    for f in os.listdir(folder):
        if f.endswith(".rs") and f[:-3] not in bins:
            os.remove(os.path.join(folder, f))
    n = 0
    for b, gs in bins.items():
        t = HEAD
        calls = []
        for i, g in enumerate(gs):
            n += len(g["entries"])
            # Not too many calls to a function, for the compiler's sake.
            parts = [g["entries"][k:k + 50] for k in range(0, len(g["entries"]), 50)]
            t += "".join(g["defs"])
            for k, p in enumerate(parts):
                t += f"fn g{i}_{k}() -> Vec<Entry> {{ vec![\n  " + ",\n  ".join(p) + "\n] }\n"
                calls.append(f'    ("{g["name"]}{", " + str(k + 1) if len(parts) > 1 else ""}", g{i}_{k}, {str(g["recursive"]).lower()}),')
        t += "fn main() { derive_grammar::main(vec![\n" + "\n".join(calls) + "\n]) }\n"
        p = os.path.join(folder, b + ".rs")
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    return sorted(bins), n


if __name__ == "__main__":
    import sys
    print(write(sys.argv[1], "--thorough" in sys.argv))
