#!/usr/bin/env python3
"""Writes vc/src/shapes.rs: types with derived serialization, and by the side of each what its
annotations mean, worked out here."""
import os
import random

R = random.Random(20240117)
CLASS = {"UNIVERSAL": 0, "APPLICATION": 0x40, "CONTEXT_SPECIFIC": 0x80, "PRIVATE": 0xC0}
PC = {"PRIMITIVE": 0, "CONSTRUCTED": 0x20}
IDS = dict(Boolean=1, Integer=2, BitString=3, OctetString=4, Null=5, Real=9, UTF8String=0x0C, Sequence=0x30, Set=0x31)
EDGES = [0, 1, 2, 15, 16, 29, 30, 31, 32, 63, 64, 127, 128, 129, 255, 256, 300, 8191, 8192, 16383, 16384, 16385, 65535, 65536,
         2**21 - 1, 2**21, 2**28 - 1, 2**28, 2**31, 2**32 - 1, 2**32, 2**35 - 1, 2**35, 2**42, 2**49 - 1, 2**56, 2**63 - 1, 2**63,
         2**64 - 1, 2**64, 2**70 - 1, 2**70, 2**77, 2**84, 2**91 - 1, 2**98, 2**105, 2**112 - 1, 2**119, 2**126 - 1, 2**126,
         2**127, 2**128 - 2, 2**128 - 1, 0x80 * 0x4001, 5 * 2**21 + 7, 0x1F, 0x1FF, 0x3FFF80]
PLAIN = ["u8", "i8", "u16", "i32", "i64", "u64", "i128", "u128", "usize", "bool", "String", "OctetString<'static>", "Vec<i16>",
         "Vec<String>", "BTreeMap<u8, String>", "BTreeSet<i32>", "Vec<Vec<u8>>", "LinkedList<OctetString<'static>>"]
# field type -> wire type, with both directions infallible or not
INTO = [("Metres", "u32"), ("Name", "String"), ("Wrapped", "Vec<u8>")]
TO = [("Even", "i16"), ("Text", "OctetString<'static>")]
FROM_PATH = {"Vec<u8>": "Vec::<u8>", "OctetString<'static>": "OctetString::<'static>"}

out = []
made = []          # names usable as fields


def octets(base, cls, pc, num):
    """Identifier octets, by X.690 8.1.2."""
    b0 = base
    if cls is not None:
        b0 = (b0 & 0x3F) | CLASS[cls]
    if pc is not None:
        b0 = (b0 & 0xDF) | PC[pc]
    if num is None:
        return [b0]
    if num <= 30:
        return [(b0 & 0xE0) | num]
    groups = []
    while True:
        groups.insert(0, num & 0x7F)
        num >>= 7
        if not num:
            break
    return [b0 | 0x1F] + [g | 0x80 for g in groups[:-1]] + [groups[-1]]


def literal(n):
    return R.choice([str(n), str(n), hex(n), oct(n), bin(n)])


def ident(num=None, force=False):
    """Annotation arguments about the identifier, and the octets meant."""
    base = cls = pc = None
    if R.random() < .3:
        base = R.choice(list(IDS))
    if R.random() < .6:
        cls = R.choice(list(CLASS))
    if R.random() < .5:
        pc = R.choice(list(PC))
    if num is None and (force or R.random() < .5):
        num = R.choice(EDGES + [R.getrandbits(R.randrange(1, 129))])
    o = octets(IDS[base] if base else 0x30, cls, pc, num)
    if o[0] == 0:
        return ident(None, True)
    args = []
    if base:
        args.append(f"id = {base}")
    if cls:
        args.append(f"tag_class = {cls}")
    if pc:
        args.append(f"tag_pc = {pc}")
    if num is not None:
        args.append(f"tag_num = {literal(num)}")
    R.shuffle(args)
    return args, o


def attr(args):
    return f"#[bsn1_serde({', '.join(args)})] " if args else ""


class Field:
    def __init__(self, kinds):
        k = R.choice(kinds)
        self.attr, self.write, self.read = "", True, True
        self.out = "{}.enc()"
        self.default = "Default::default()"
        if k in ("plain", "nested"):
            self.ty = R.choice(made) if k == "nested" and made else R.choice(PLAIN)
            self.wire, self.back = self.ty, "Some"
        elif k == "into":
            self.ty, self.wire = R.choice(INTO)
            self.attr = attr([f'into = "{path(self.wire)}"', f'from = "{path(self.wire)}"'])
            self.out, self.back = f"out_{self.ty.lower()}({{}}).enc()", f"in_{self.ty.lower()}"
        elif k == "to":
            self.ty, self.wire = R.choice(TO)
            self.attr = attr([f'to = "to_{self.ty.lower()}"', f'try_from = "{path(self.wire)}"'])
            self.out, self.back = f"out_{self.ty.lower()}({{}}).enc()", f"in_{self.ty.lower()}"
        elif k == "mixed":
            self.ty, self.wire = "Even", "i16"
            self.attr = attr(R.choice([['into = "i16"', 'try_from = "i16"']]))
            self.out, self.back = "out_even({}).enc()", "in_even"
        else:
            self.ty = R.choice([t for t in PLAIN[:13] if "Octet" not in t] + ["Metres"])
            self.wire, self.back = self.ty, "Some"
            if self.ty == "Metres" and k != "skip":
                self.ty = self.wire = "u16"
            args = [k]
            self.write = k == "skip_deserializing"
            self.read = k == "skip_serializing"
            if not self.read and self.ty == "u8":
                args.append('default = "seven"')
                self.default = "7u8"
            R.shuffle(args)
            self.attr = attr(args)


def path(t):
    return {"Vec<u8>": "Vec<u8>"}.get(t, t)


KINDS = ["plain"] * 5 + ["nested"] * 2 + ["into", "to", "mixed", "skip", "skip", "skip_serializing", "skip_deserializing"]
SYMMETRIC = [k for k in KINDS if "_" not in k]


def fields(n, kinds):
    return [Field(kinds) for _ in range(n)]


def body(form, fs):
    """Declaration, pattern, constructor of values."""
    if form == "unit":
        return "", "", lambda v: ""
    if form == "tuple":
        return ("(" + ", ".join(f"{f.attr}{'pub '}{f.ty}" for f in fs) + ")", "(" + ", ".join(f"f{i}" for i in range(len(fs))) + ")",
                lambda v: "(" + ", ".join(v) + ")")
    return (" { " + ", ".join(f"{f.attr}pub f{i}: {f.ty}" for i, f in enumerate(fs)) + " }",
            " { " + ", ".join(f"f{i}" for i in range(len(fs))) + " }",
            lambda v: " { " + ", ".join(f"f{i}: {x}" for i, x in enumerate(v)) + " }")


def variantbody(form, fs):
    d, p, c = body(form, fs)
    return d.replace("pub ", ""), p, c


def contents(fs):
    w = [f.out.format(f"f{i}") for i, f in enumerate(fs) if f.write]
    return "[" + ", ".join(w) + "].concat()" if w else "Vec::<u8>::new()"


def reading(fs, make):
    s = "let mut r = Reading::new(ber, c); "
    v = []
    for i, f in enumerate(fs):
        if f.read:
            s += f"let f{i} = r.take::<{f.wire}>().and_then({f.back}); r.need(f{i}.is_some()); "
            v.append(f"f{i}.unwrap()")
        else:
            v.append(f.default)
    return s + f"r.end(move || {make(v)})"


def emit(name, decl, gen, id_, cont, dec):
    out.append(f"""
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
{decl}
impl Enc for {name} {{
    fn gen(size: usize) -> Self {{ {gen} }}
    fn many(_: usize) -> usize {{ pick(4) }}
    fn id(&self) -> Vec<u8> {{ {id_} }}
    fn contents(&self) -> Vec<u8> {{ {cont} }}
}}
impl Dec for {name} {{
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> {{ let _ = (ber, indefinite, c); {dec} }}
}}
""")


def draw(fs):
    return [f"Enc::gen(size / 2)"] * len(fs)


def struct(name, form, fs, args, o):
    d, p, c = body(form, fs)
    semi = "" if form == "named" else ";"
    emit(name, f"{attr(args)}\npub struct {name}{d}{semi}", f"let _ = size; Self{c(draw(fs))}", f"vec!{o}",
         f"let Self{p} = self; {contents(fs)}", f"if id != {o} {{ return Nothing; }} " + reading(fs, lambda v: "Self" + c(v)))


def enum(name, n, kinds):
    vs, used = [], []
    while len(vs) < n:
        args, o = ident() if vs else ([], [0x30])
        if o in used:
            continue
        used.append(o)
        form = R.choice(["unit", "tuple", "tuple", "named"])
        fs = fields(0 if form == "unit" else R.randrange(0, 4), kinds)
        vs.append((f"V{len(vs)}", args, o, fs, variantbody(form, fs)))
    decl = f"pub enum {name} {{ " + ", ".join(f"{attr(a)}{v}{b[0]}" for v, a, o, fs, b in vs) + " }"
    gen = f"match pick({n}) {{ " + " ".join(f"{i if i < n - 1 else '_'} => Self::{v}{b[2](draw(fs))}," for i, (v, a, o, fs, b) in enumerate(vs)) + " }"
    idm = "match self { " + " ".join(f"Self::{v} {{ .. }} => vec!{o}," for v, a, o, fs, b in vs) + " }"
    con = "match self { " + " ".join(f"Self::{v}{b[1]} => {contents(fs)}," for v, a, o, fs, b in vs) + " }"
    dec = " else ".join(f"if id == {o} {{ " + reading(fs, lambda x, v=v, b=b: f"Self::{v}" + b[2](x)) + " }" for v, a, o, fs, b in vs) + " else { Nothing }"
    emit(name, decl, "let _ = size; " + gen, idm, con.replace("Self::", "Self::"), dec)


def transparent(name, form):
    main = Field(["plain"] * 3 + ["nested", "into", "to", "mixed"])
    fs = [Field(["skip"]) for _ in range(R.randrange(0, 3))]
    at = R.randrange(0, len(fs) + 1)
    fs.insert(at, main)
    d, p, c = body(form, fs)
    semi = "" if form == "named" else ";"
    conv = {"into": 1}.get("x")
    inner = main.out.format(f"f{at}").replace(".enc()", "")
    v = [f.default for f in fs]
    v[at] = "x"
    emit(name, f"#[bsn1_serde(transparent)]\npub struct {name}{d}{semi}", f"Self{c(draw(fs))}", f"let Self{p} = self; {inner}.id()",
         f"let Self{p} = self; {inner}.contents()",
         f"through(<{main.wire} as Dec>::dec(ber, id, indefinite, c), {main.back}, |x| Self{c(v)})")


def converted(name, k):
    """The whole value converted."""
    wire = R.choice(["u32", "String"] + made[:3])
    if k == "into":
        a = attr([f'into = "{wire}"', f'from = "{wire}"'])
        extra = (f"impl From<{name}> for {wire} {{ fn from(x: {name}) -> Self {{ x.0 }} }}\n"
                 f"impl From<{wire}> for {name} {{ fn from(x: {wire}) -> Self {{ {name}(x, 9) }} }}")
        back = f"|x| Some({name}(x, 9))"
    else:
        wire = "i16"
        a = attr([f'to = "to_{name.lower()}"', 'try_from = "i16"'])
        extra = (f"fn to_{name.lower()}(x: &{name}) -> i16 {{ x.0 }}\n"
                 f"impl TryFrom<i16> for {name} {{ type Error = Refused; fn try_from(x: i16) -> Result<Self, Refused> {{ if x % 3 == 0 {{ Err(Refused) }} else {{ Ok({name}(x, 9)) }} }} }}")
        back = f"|x: i16| if x % 3 == 0 {{ None }} else {{ Some({name}(x, 9)) }}"
    emit(name, f"{a}\npub struct {name}(pub {wire}, pub u8);", f"Self(Enc::gen(size), any())", "self.0.id()", "self.0.contents()",
         f"through(<{wire} as Dec>::dec(ber, id, indefinite, c), {back}, |x| x)")
    out.append(extra)


names, symmetric = [], []
# every edge of the tag numbers
for i, n in enumerate(EDGES):
    a, o = ident(n)
    struct(f"N{i}", R.choice(["unit", "tuple", "named"]) if i % 3 else "unit", fields(0, KINDS), a, o)
    names.append(f"N{i}")
for i in range(20):
    a, o = ident()
    n = R.randrange(0, 6)
    form = R.choice(["tuple", "named", "named"])
    struct(f"A{i}", form, fields(n, SYMMETRIC), a, o)
    names.append(f"A{i}")
    made.append(f"A{i}")
for i in range(14):
    enum(f"E{i}", R.randrange(1, 6), SYMMETRIC)
    names.append(f"E{i}")
    made.append(f"E{i}")
for i in range(20):
    transparent(f"T{i}", R.choice(["tuple", "named"]))
    names.append(f"T{i}")
    made.append(f"T{i}")
for i in range(8):
    converted(f"W{i}", ["into", "to"][i % 2])
    names.append(f"W{i}")
    made.append(f"W{i}")
for i in range(20):
    a, o = ident() if i % 4 else ([], [0x30])
    form = R.choice(["tuple", "named"])
    struct(f"B{i}", form, fields(R.randrange(1, 8), KINDS), a, o)
    names.append(f"B{i}")
for i in range(20):
    enum(f"F{i}", R.randrange(2, 8), KINDS)
    names.append(f"F{i}")

head = '''//! Types with derived serialization and what their annotations mean. Written by tools/shapes.py.
#![cfg(not(kani))]
#![allow(unused, non_camel_case_types)]
use crate::refs::*;
use crate::sym::*;
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, LinkedList};

pub use crate::conversions::*;
'''
tail = '''
/// Calls `$f::<T>($n)` for each of them.
#[macro_export]
macro_rules! for_shapes {
    ($f:ident $n:expr) => {{
        use $crate::shapes::*;
''' + "".join(f"        $f::<{n}>($n);\n" for n in names) + '''    }};
}
'''
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vc", "src", "shapes.rs")
open(p, "w").write(head + "".join(out) + tail)
