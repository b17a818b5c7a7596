"""What each check consists of.

own:      obligations that state the property
uses:     obligations that prove the contracts standing in for bodies in `own`
thorough: further obligations, run with VERIF_TIER=thorough (and when an anchor is lost)
bounded:  obligation -> bound; not counted as proved
sweeps:   native bounded stand-ins -> bound
"""

INT = "i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize".split()

CHECKS = {
    "C01": dict(
        note="every value of every built-in integer type and every octet string: complete (loops bounded by the operand width, with unwinding assertions)",
        own=[f"c01::{k}_{t}" for t in INT for k in ("enc", "dec", "long", "val")],
        uses=["c08::der_new"],
    ),
    "C02": dict(note="complete: every boolean and contents of every size", own=["c02::"], uses=[]),
    "C03": dict(note="complete: every length; parsing reads at most 9 octets, all of them symbolic", own=["c03::"], uses=[]),
    "C04": dict(
        note="building and changing: complete over class, form and 128-bit number; parsing bounded to 23 octets",
        own=["c04::"],
        uses=[],
        bounded={
            "c04::parse_any": "inputs up to 23 octets (4 more than the longest identifier of a 128-bit number)",
            "c04::parse_mut": "inputs up to 8 octets",
            "c04::parse_owned": "inputs up to 23 octets",
            "c04::number_any": "identifiers up to 23 octets",
        },
    ),
    "C05": dict(
        note="headers up to 13 octets with every form of identifier and length; slices of any size with identifiers up to 3 octets",
        own=["c05::"],
        uses=["c03::parse_any"],
        bounded={
            "c05::parse_any": "inputs up to 13 octets",
            "c05::parse_mut_any": "inputs up to 13 octets",
            "c05::parse_huge": "identifiers up to 3 octets; slices of any size",
            "c05::parse_mut_huge": "identifiers up to 3 octets; slices of any size",
        },
    ),
    "C06": dict(
        note="bounded: inputs up to 8 octets in full, up to 20 octets with one-octet headers; definite lengths of any size",
        own=["c06::nested", "c06::nested_short", "c06::nested_short_mut", "c06::definite_huge"],
        uses=["c05::parse_any"],
        thorough=["c06::parse_any", "c06::parse_mut_any"],
        bounded={
            "c06::nested": "inputs up to 8 octets",
            "c06::nested_short": "inputs up to 20 octets, one-octet identifiers and lengths",
            "c06::nested_short_mut": "inputs up to 16 octets, one-octet identifiers and lengths",
            "c06::definite_huge": "one-octet identifiers; slices of any size",
            "c06::parse_any": "inputs up to 4 octets",
            "c06::parse_mut_any": "inputs up to 4 octets",
            "c05::parse_any": "inputs up to 13 octets",
        },
        sweeps={"c06::deep": "up to 300,000 nested indefinite lengths"},
    ),
    "C07": dict(
        note="headers up to 12 octets with identifiers up to 3; contents of any announced size from a stream of up to 200,000 octets that ends or fails anywhere; nesting within 10 octets",
        own=["c07::"],
        uses=["c03::parse_any"],
        bounded={
            "c07::id": "streams up to 8 octets",
            "c07::der_header": "identifiers up to 3 octets, every form of length",
            "c07::der_contents": "streams up to 200,000 octets, any announced size",
            "c07::ber_contents": "streams up to 200,000 octets, any announced size",
            "c07::nested::ber_nested": "streams up to 10 octets, one-octet identifiers and lengths",
        },
        sweeps={"c07::streams": "contents up to 70,000 octets in pieces of eight sizes, cut or failing at many places; up to 70,000 nested indefinite lengths; announced sizes up to 2^63"},
        assumptions=["Read::read_exact of a reader does what the standard library promises"],
    ),
    "C08": dict(
        note="contents of any size and identifiers up to 3 octets; sequences of three pieces up to 8 octets; values of any size taken apart",
        own=["c08::"],
        uses=["c10::native::"],
        bounded={
            "c08::der_from_pieces": "three pieces up to 8 octets each",
            "c08::ber_from_pieces": "three pieces up to 8 octets each",
            "c08::ber_from_pieces_indefinite": "three pieces up to 8 octets each",
            "c08::apart::write_views": "one value of 8 octets",
        },
        sweeps={"c08::sizes": "contents of 0 to 399 octets and around 2^16 and 2^24, identifiers of 1 to 3 octets"},
        assumptions=["identifiers above three octets: the code treats identifier octets as one opaque slice (C04 covers their own parsing and building)"],
    ),
    "C09": dict(
        note="one operation from an arbitrary value (hence any sequence): contents up to 20 octets with every octet and size arbitrary, and the sizes at which the length octets change",
        own=["c09::"],
        uses=["c08::apart::der_apart", "c08::apart::ber_apart", "c10::native::"],
        bounded={
            **{f"c09::{h}": "contents and appended octets up to 20" for h in "der_extend der_push ber_push ber_extend ber_extend_indefinite der_truncate ber_truncate".split()},
            "c09::long_id::der_extend_long_id": "identifiers up to 3 octets, contents of 4 octets",
            **{f"c09::steps::step_{a}": "these sizes, one-octet identifier" for a in "127_1 126_1 0_128 1_128 128_127 255_1 200_60 100_200".split()},
        },
        sweeps={"c09::sizes": "pairs of sizes around every change of the length octets up to 2^24, identifiers of 1 to 3 octets"},
    ),
    "C10": dict(
        note="complete: every operation from every inline state and from heap states of every size below 2^40, in both implementations",
        own=["c10::"],
        uses=[],
        bounded={"c10::outer::compare": "up to 4 octets"},
        sweeps={"c10::native::sequences": "every sequence of four operations over eight sizes",
                "c10::portable::sequences": "every sequence of four operations over eight sizes"},
    ),
    "C11": dict(
        note="conversions and vectors: values of any size; comparison, ordering and hashing bounded",
        own=["c11::"],
        uses=["c10::native::"],
        bounded={
            "c11::identifiers": "identifiers up to 3 octets",
            "c11::contents": "contents up to 4 octets",
            "c11::der": "values up to 6 octets",
            "c11::ber": "values up to 6 octets",
        },
        sweeps={"c11::pairs": "pairs of values of many sizes"},
    ),
    "C12": dict(
        features=["serde"],
        note="numbers, booleans, strings: complete; the entry points over a value of any size; containers of up to two elements of any size whose contracts stand for them; other nestings by sweeps",
        own=["c12::leaf::", "c12::text::", "c12::to_writer", "c12::to_memory", "c12::lists::vec", "c12::lists::linked_list",
             "c12::lists::deque", "c12::lists::tree_set", "c12::lists::tree_map", "c12::lists::tree_map_neither"],
        uses=["c08::der_new"],
        thorough=["c12::lists::"],
        bounded={
            **{f"c12::lists::{h}": "up to two elements, of any size, identifiers up to 3 octets" for h in "vec linked_list deque tree_set".split()},
            **{f"c12::lists::tree_map{h}": "one pair, of any size, identifiers up to 3 octets" for h in ["", "_key", "_value", "_neither", "_octets", "_octets_key", "_octets_value", "_octets_neither"]},
        },
        sweeps={"c12::nestings": "26 types of nested containers, hash containers among them, of random sizes up to some thousand octets",
                "c12::mixed": "containers of elements that withhold their sizes"},
    ),
    "C13": dict(
        features=["serde"],
        note="numbers, booleans, octet strings: complete; entry points on inputs up to 8 octets; containers: what is written (C12) is what is read (C14); other nestings by sweeps",
        own=["c13::leaf::", "c13::text::octets", "c13::entry::"],
        uses=["c12::leaf::", "c12::to_writer", "c12::to_memory", "c12::lists::vec", "c14::lists::vec_der"],
        thorough=["c13::text::string"],
        bounded={
            **{f"c13::entry::{h}": "inputs up to 8 octets, with one-octet identifiers and lengths in BER" for h in "der ber read_der read_ber".split()},
            "c13::text::string": "one character",
            "c12::lists::vec": "up to two elements, of any size, identifiers up to 3 octets",
            "c14::lists::vec_der": "up to two elements, of any size, identifiers up to 3 octets",
        },
        sweeps={"c13::nestings": "26 types of nested containers, hash containers among them, of random sizes up to some thousand octets"},
    ),
    "C14": dict(
        features=["serde"],
        note="numbers, booleans, octet strings: contents of every size; lists of up to two elements of any size, with trailing octets and wrong tags; other nestings by sweeps",
        own=["c14::leaf::", "c14::other::", "c14::lists::vec_der", "c14::lists::linked_der", "c14::lists::deque_der", "c14::lists::vec_ber",
             "c14::lists::tree_map_der", "c14::lists::tree_map_ber", "c14::lists::tree_set_der", "c14::lists::tree_set_ber"],
        uses=["c13::entry::der"],
        thorough=["c14::lists::linked_ber", "c14::lists::deque_ber"],
        native=["c14::lists::tree_map_der", "c14::lists::tree_map_ber", "c14::lists::tree_set_der", "c14::lists::tree_set_ber"],
        bounded={
            "c14::other::string": "contents up to 4 octets",
            "c13::entry::der": "inputs up to 8 octets",
            **{f"c14::lists::{h}": "up to two elements, of any size, identifiers up to 3 octets" for h in "vec_der vec_ber linked_der linked_ber deque_der deque_ber".split()},
        },
        sweeps={"c14::changed": "encodings of 26 types of nested containers with up to three changes, in definite and indefinite form",
                "c14::all_short": "every string of up to 4 octets out of sixteen, for 26 types"},
    ),
    "C15": dict(
        features=["serde"],
        note="bounded over programs: eleven derived types that between them use every annotation, with fields of any size that announce or withhold their sizes; 161 generated types by sweeps",
        own=["c15::proofs::", "c15::ident::"],
        uses=["c12::to_writer"],
        bounded={h: "this type; field values of any size, identifiers up to 3 octets" for h in
                 [f"c15::proofs::{x}" for x in "named tuple unit variant through through_into through_to field_into field_to whole_into whole_to".split()]},
        sweeps={"c15::shapes": "161 generated types (structs, tuples, units, enums, transparent, converted), every size class of tag number up to 2^128 - 1, random field values"},
    ),
    "C16": dict(
        features=["serde"],
        note="bounded over programs: ten derived types that between them use every annotation, given up to three elements of any size, with wrong tags and trailing octets; 161 generated types by sweeps",
        own=["c16::proofs::"],
        uses=["c15::proofs::tuple", "c15::ident::"],
        bounded={h: "this type; up to three elements of any size, identifiers up to 3 octets" for h in
                 [f"c16::proofs::{x}_{k}" for x in "named tuple unit variant no_variant converted through".split() for k in ("der", "ber")] + ["c15::proofs::tuple"]},
        sweeps={"c16::shapes": "161 generated types given what they write, what they write changed in up to three places, in definite and indefinite form, and 36 fixed short elements"},
        assumptions=["anyhow::Error::new wraps the error of a failed conversion; its contents are not looked into"],
    ),
}

BUFFER = "the contract of bsn1::Buffer, decided by C10"
PARTS = "the contracts of DerRef and BerRef (parsing, taking apart), decided by C05, C06 and C08"
WRITER = "Write::write_all of a writer does what the standard library promises"
for _p, _a in {
    "C01": [BUFFER],
    "C12": [BUFFER, WRITER],
    "C13": [BUFFER, PARTS, WRITER],
    "C14": [BUFFER, PARTS],
    "C15": [BUFFER, WRITER, "Attribute::id as extracted: other fields of the struct dropped, quote! yielding the octets as they are"],
    "C16": [BUFFER, PARTS, "Attribute::id as extracted: other fields of the struct dropped, quote! yielding the octets as they are"],
}.items():
    CHECKS[_p]["assumptions"] = CHECKS[_p].get("assumptions", []) + _a

# Functions of /repo whose contract stands in for their body in some obligations: (cfg, file,
# signature that has to be found). Without it the cfg is left out and the obligations concerned
# are replaced by their bounded stand-ins.
ANCHORS = {
    "vc_pil": [
        ("bsn1/src/misc.rs", r"pub unsafe fn parse_id_length<R, W>\(\s*readable: &mut R,\s*writeable: &mut W,?\s*\) -> Result<Length, Error>"),
    ],
    "vc_rc": [
        ("bsn1/src/misc.rs", r"pub fn read_contents<R>\(\s*readable: &mut R,\s*writeable: &mut Buffer,\s*length: usize,?\s*\) -> std::io::Result<\(\)>"),
    ],
    "vc_buf": [
        ("bsn1/src/buffer/mod.rs", r"pub struct Buffer\("),
    ],
    "vc_attr": [
        ("bsn1_serde_macros/src/attribute.rs", r"val: T,"),
        ("bsn1_serde_macros/src/attribute.rs", r"id_: Option<AttrArgument<u8>>,\s*tag_class: Option<AttrArgument<u8>>,\s*tag_pc: Option<AttrArgument<u8>>,\s*tag_num: Option<AttrArgument<u128>>,"),
        ("bsn1_serde_macros/src/attribute.rs", r'"PRIVATE", 0xc0'),
        ("bsn1_serde_macros/src/attribute.rs", r'"CONSTRUCTED", 0x20'),
    ],
    "vc_universal": [
        ("bsn1/src/buffer/universal_endian/mod.rs", r"pub struct Buffer \{"),
        ("bsn1/src/buffer/universal_endian/mod.rs", r"pub fn from_vec\("),
    ],
}

# Types whose every method has a contract standing in for it: (file, type, methods).
METHODS = {
    "vc_buf": [
        ("bsn1/src/buffer/mod.rs", "Buffer", "new with_capacity from_vec push extend_from_slice len capacity reserve set_len as_ptr as_mut_ptr as_slice as_mut_slice into_vec".split()),
    ],
}

# Functions that cannot be linked against, whose text is taken from the source on every run:
# cfg -> (source file, text, where it goes, what is put around it).
EXTRACTS = {
    "vc_attr": ("bsn1_serde_macros/src/attribute.rs", r"^    pub fn id\(&self, default_id: u8\) -> Option<TokenStream> \{\n.*?^    \}\n",
                "attribute_id.rs", ("impl Attribute {\n", "}\n")),
}

# cfgs that only say a source file is there; they replace nothing.
PLAIN = ["vc_universal"]

# Obligations that mean nothing without the cfg.
NEEDS = {
    "vc_attr": ["c15::ident::"],
    "vc_universal": ["c10::portable::"],
    "vc_pil": ["c05::parse_huge", "c05::parse_mut_huge", "c06::nested", "c06::nested_short", "c06::nested_short_mut", "c06::definite_huge", "c07::der_contents", "c07::ber_contents", "c07::nested::ber_nested"],
    "vc_rc": ["c07::der_header", "c07::ber_contents", "c07::nested::ber_nested"],
}

ASSUMPTIONS = [
    "memory allocation succeeds (Kani's allocator model never fails)",
    "the 64-bit little-endian build of the crate; the portable Buffer is verified separately in C10",
]

NOT_APPLICABLE = {}
