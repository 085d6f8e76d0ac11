"""Which harness entries, with which bounds, decide which property."""
import genops


class Job:
    def __init__(self, h, entry, *args, bound="", tier="quick", cap=240, optional=False, cost=1, samples=2, cross=True):
        self.h, self.entry, self.args, self.bound = h, entry, args, bound
        self.tier, self.cap, self.optional, self.cost = tier, cap, optional, cost
        self.samples, self.cross = samples, cross
        self.part = None


HARNESS = {
    "client": {
        "dir": "client", "lib": "sxclient",
        "repo": ["progenitor-client/src", "progenitor-client/Cargo.toml", "Cargo.toml"],
        "fresh": ["progenitor-client", "sxclient", "sxclient-replay"],
    },
    "ops": {
        "dir": "ops", "lib": "sxops",
        "repo": ["progenitor-client/src", "progenitor-client/Cargo.toml", "Cargo.toml", "progenitor-impl/src",
                 "progenitor-impl/Cargo.toml"],
        "fresh": ["progenitor-client", "sxops", "sxops-replay"],
        "extra": ["gen", "client"],
        "generate": genops.generate,
    },
    "tools": {
        "dir": "tools", "lib": "sxtools",
        "repo": ["progenitor-client/src", "progenitor-client/Cargo.toml", "Cargo.toml", "progenitor-impl/src",
                 "progenitor-impl/Cargo.toml"],
        "fresh": ["progenitor-client", "sxtools", "sxtools-replay"],
        "extra": ["gen", "client", "ops"],
        "generate": genops.generate_tools,
    },
    "impl": {
        "dir": "impl", "lib": "sximpl",
        "repo": ["progenitor-impl/src", "progenitor-impl/Cargo.toml", "Cargo.toml"],
        "fresh": ["sximpl", "sximpl-replay"],
        "extra": ["gen/stubs", "client/src/rt.rs"],
        "generate": genops.source,
    },
    "front": {
        "dir": "front", "lib": "sxfront",
        "repo": ["progenitor-macro/src", "progenitor-macro/Cargo.toml", "cargo-progenitor/src", "cargo-progenitor/Cargo.toml",
                 "progenitor/src", "progenitor-impl/src", "progenitor-impl/Cargo.toml", "progenitor-client/src",
                 "progenitor-client/Cargo.toml", "Cargo.toml"],
        "fresh": ["progenitor-macro", "cargo-progenitor", "progenitor", "progenitor-impl", "progenitor-client", "sxfront",
                  "sxfront-replay"],
        "extra": ["gen", "client/src/rt.rs"],
        "parted": ["progenitor-macro", "cargo-progenitor"],
        "generate": genops.fronts,
    },
}

ASSUME = [
    "rustc's LLVM IR at opt-level 1 has the semantics of the source; the replay binary is compiled separately and must agree on sampled paths",
    "the engine's bit-precise memory and integer model, z3's verdicts (models are re-evaluated by the engine), environment calls as modelled (no ambient proxies, no optional CPU features)",
    "allocation never fails; single thread",
]


def C(entry, *args, **k):
    return Job("client", entry, *args, **k)


def T(entry, *args, **k):
    k.setdefault("tier", "thorough")
    k.setdefault("optional", True)
    k.setdefault("cap", 250)
    return Job("client", entry, *args, **k)


PROPS = {}


def prop(pid, jobs, reach, outside, assume=()):
    PROPS[pid] = dict(jobs=jobs, reach=list(reach), outside=outside, assume=list(assume))


def utf8(n):
    return "every valid UTF-8 string of exactly %d bytes" % n


prop(
    "C01",
    [C("h_path_seg", n, bound=utf8(n), cost=n) for n in (0, 1, 2, 3)]
    + [C("h_path_seg", 4, bound=utf8(4), cost=20)]
    + [C("h_path_long", n, k, bound="%d bytes: one ASCII byte repeated, %d other ASCII bytes at end/start/middle" % (n, k))
       for n, k in ((5, 2), (8, 1), (16, 2), (33, 1), (64, 1), (70, 2), (128, 1), (255, 1), (257, 1), (1025, 1))]
    + [C("h_path_two", a, b, bound="two values of %d and %d bytes in one path" % (a, b), cost=a * b) for a, b in ((1, 1), (2, 1), (1, 2), (2, 2))]
    + [C("h_word", n, 0, 3, bound="every word of %d letters and digits" % n) for n in (4, 5, 6, 8, 12, 24)]
    + [C("h_path_long", 70000, 1, bound="70000 bytes: one ASCII byte repeated, 1 other", cost=60, optional=True), C("h_path_long", 5000, 2, bound="5000 bytes, 2 other", cost=20)]
    + [T("h_path_seg", 5, bound=utf8(5)), T("h_path_two", 3, 2, bound="values of 3 and 2 bytes"),
       T("h_path_long", 40, 3, bound="40 bytes, 3 free bytes"), T("h_path_long", 5000, 2, bound="5000 bytes, 2 free")],
    ["path: value arrives as exactly one segment", "path: two values arrive as their own segments"],
    "longer values that are not of the repeated-byte pattern; more than two values per path; templates with other constant text",
)
prop(
    "C02",
    [C("h_q_str", n, 0, bound="string value: " + utf8(n), cost=n * n) for n in (0, 1, 2, 3)]
    + [C("h_q_str", n, k, bound="string of %d bytes: one ASCII byte repeated, %d free" % (n, k - 1)) for n, k in ((8, 2), (40, 2), (129, 2), (300, 2), (1030, 2))]
    + [C("h_q_name", n, bound="parameter name: " + utf8(n), cost=n * n) for n in (0, 1, 2, 3)]
    + [C("h_q_int", k, bound="through the URL: every " + t, cost=4) for k, t in ((0, "u8"), (1, "i8"), (2, "u16"), (3, "i16"))]
    + [C("h_q_int", k, bound="through the URL: 14 ranges of 256 consecutive %s around powers of 2 and 10" % t) for k, t in ((8, "u64"), (9, "i64"), (10, "u32"), (11, "i32"))]
    + [C("h_q_misc", 0, bound="every bool"), C("h_q_misc", 1, bound="every Unicode scalar value", cost=3), C("h_q_misc", 2, bound="18 floats at the edges of the type (enumerated)")]
    + [C("h_q_rec", k, bound="every %s, plain and optional, every 2-byte name" % t) for k, t in enumerate("bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char".split())]
    + [C("h_q_tree", 1, 1, 0, 5, bound="scalars and newtypes around any leaf")]
    + [C("h_word", n, u, 3, bound="every word of %d letters and digits, as value, name or both" % n) for n in (4, 5, 6, 8, 12, 24) for u in (1, 2, 6)]
    + [C("h_q_str", n, 2, bound="%d bytes: one ASCII byte repeated, 1 other" % n, cost=n / 2000) for n in (9000, 70000)]
    + [T("h_q_str", 4, 0, bound=utf8(4)), T("h_q_name", 4, bound=utf8(4)), T("h_q_str", 30, 4, bound="30 bytes, 3 free")],
    ["query: a word decodes to itself", "query: a word as the name", "query: a word as name and value", "query: string value decodes to itself", "query: scalar under its name", "query: integer appears in decimal",
     "query: char", "query: full-width scalar reaches the form serializer unchanged", "query: every part of the value is sent"],
    "text of floats other than the enumerated ones and of 32/64-bit integers away from the boundary ranges (their full-width value is checked up to the form serializer)",
)
prop(
    "C03",
    [C("h_q_arr", n, bound="%d elements, every u8 each" % n, cost=n * n) for n in (0, 1, 2, 3)]
    + [C("h_q_arr_rec", n, k, m, bound="%d full-width elements of kind %d, container form %d" % (n, k, m))
       for n, k, m in ((0, 8, 0), (1, 8, 0), (2, 4, 1), (3, 10, 2), (4, 8, 3), (5, 9, 4), (6, 8, 4), (9, 8, 0), (17, 2, 4), (33, 8, 2), (65, 5, 0), (100, 8, 1))]
    + [C("h_q_arr_str", n, m, bound="%d strings of %d bytes" % (n, m), cost=n * m) for n, m in ((0, 0), (1, 2), (2, 1), (3, 1), (4, 0))]
    + [C("h_q_arr_long", n, bound="%d elements, 4 distinct symbolic bytes" % n) for n in (10, 33, 100, 260)]
    + [C("h_q_tree", 1, 2, 0, 1, bound="sequences and tuples of up to 2 leaves of any kind", cost=3),
       C("h_q_tree", 1, 3, 1, 1, bound="sequences and tuples of up to 3 leaves of 4 kinds", cost=3)]
    + [C("h_word", n, 3, 3, bound="list of words of %d bytes" % n) for n in (4, 5, 8)]
    + [C("h_many", n, 2, bound="%d optional elements" % n) for n in (1, 40, 300)]
    + [C("h_q_arr_long", n, bound="%d elements" % n) for n in (1100, 5000)]
    + [C("h_named", n, a, 6, w, bound="three elements announced or not") for n, a in ((1, 9), (3, 3)) for w in (0, 1)]
    + [T("h_q_arr_str", 2, 2, bound="2 strings of 2 bytes"), T("h_q_arr_str", 3, 2, bound="3 strings of 2 bytes"), T("h_q_arr", 4, bound="4 elements"),
       T("h_q_tree", 1, 3, 0, 1, bound="up to 3 leaves of any kind"), T("h_q_tree", 2, 2, 1, 1, bound="depth 2")],
    ["query: words in a list", "query: every one of many parts", "query: sent by its declared names", "query: one pair per element, in order", "query: every element reaches the form serializer, in order",
     "query: one pair per string, in order", "query: every element of a long list, in order", "query: every part of the value is sent"],
    "more than 260 elements",
)
prop(
    "C04",
    [C("h_q_map", n, a, b, bound="%d entries, keys %d bytes, values %d bytes" % (n, a, b), cost=n * 3) for n, a, b in ((0, 1, 1), (1, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 1))]
    + [C("h_q_opt", n, bound="object with optional fields, string of %d bytes" % n, cost=2) for n in (0, 1, 2)]
    + [C("h_q_tree", 1, 2, 1, 2, bound="maps and structs of up to 2 entries of 4 leaf kinds", cost=9),
       C("h_q_tree", 1, 1, 0, 2, bound="maps and structs of one entry, any leaf", cost=9)]
    + [C("h_word", n, 4, 3, bound="keys and values of %d letters and digits" % n) for n in (4, 5, 8)]
    + [C("h_many", n, k, bound="%d entries or fields, first, middle or last absent" % n) for n in (1, 40, 300) for k in (0, 1)]
    + [C("h_named", n, a, k, w, bound="struct or map with every name of %d bytes" % n) for n, a in ((1, 9), (3, 3)) for k in (3, 5) for w in (0, 1)]
    + [T("h_q_map", 3, 1, 0, bound="3 entries"), T("h_q_map", 2, 1, 2, bound="2 entries"), T("h_q_tree", 1, 2, 0, 2, bound="two entries, any leaf"),
       T("h_q_tree", 2, 1, 0, 2, bound="nested")],
    ["query: words in a map", "query: every one of many parts", "query: sent by its declared names", "query: one pair per map entry", "query: object fields by name, absent ones omitted", "query: every part of the value is sent"],
    "maps with more than 2 symbolic entries; objects with more than 3 fields",
)
prop(
    "C05",
    [C("h_q_enum", n, bound="17 enum shapes of all serde representations, payload of %d bytes" % n, cost=2) for n in (0, 1, 2, 3)]
    + [C("h_q_tree", 1, 2, 0, 3, bound="enum variants of all serializer shapes, up to 2 leaves of any kind", cost=2),
       C("h_q_tree", 2, 1, 1, 3, bound="enum variants, nested once", cost=2)]
    + [C("h_named", n, a, k, w, bound="variant kind %d under every name of %d bytes and every index" % (k, n)) for n, a in ((0, 3), (1, 9), (2, 9), (3, 3), (5, 3), (9, 3)) for k in (0, 1, 2, 7, 8, 9, 10, 11) for w in (0, 1)]
    + [C("h_named", n, 3, k, 2, bound="variants in a list") for n in (1, 3, 6) for k in (0, 8)]
    + [T("h_q_enum", 4, bound="payload of 4 bytes"), T("h_q_tree", 1, 3, 0, 3, bound="up to 3 leaves"), T("h_q_tree", 2, 2, 1, 3, bound="depth 2, width 2")],
    ["query: sent by its declared names", "query: refused whatever its names", "query: enum value", "query: newtype around a scalar", "query: every part of the value is sent",
     "query: a value that cannot be sent is an error"],
    "variant and field names other than the fixed ones",
)
prop(
    "C06",
    [C("h_q_opt", n, bound="optional parameters, fields and elements; string of %d bytes" % n, cost=2) for n in (0, 1, 2)]
    + [C("h_q_name", 2, bound="absent under every 2-byte name", cost=2),
       C("h_q_tree", 1, 2, 0, 4, bound="options around any leaf"), T("h_q_tree", 2, 2, 0, 4, bound="options around any shape of leaves"),
       C("h_q_tree", 2, 2, 1, 4, bound="options around any shape of 4 leaf kinds", cost=9),
       C("h_q_arr_rec", 3, 8, 3, bound="options inside a list")]
    + [C("h_q_rec", k, bound="optional full-width scalar kind %d" % k) for k in (0, 4, 8, 10, 11)]
    + [C("h_named", 1, 9, k, 1, bound="option around shape %d under every name" % k) for k in range(12)]
    + [C("h_many", n, k, bound="%d optional parts" % n) for n in (1, 40, 300) for k in (0, 1, 2)]
    + [T("h_q_opt", 3, bound="3 bytes"), T("h_q_tree", 3, 1, 1, 4, bound="depth 3")],
    ["query: sent by its declared names", "query: every one of many parts", "query: absent sends nothing", "query: optional value as the value itself", "query: object fields by name, absent ones omitted",
     "query: every part of the value is sent"],
    "deeper nesting",
)
prop(
    "C07",
    [C("h_q_tree", 1, 1, 0, 0, bound="every shape of nesting 1, width 1, all leaf kinds", cost=3),
     C("h_q_tree", 1, 2, 1, 0, bound="every shape of nesting 1, width 2, 4 leaf kinds", cost=9),
     C("h_q_tree", 2, 1, 1, 0, bound="every shape of nesting 2, width 1, 4 leaf kinds", cost=9),
     C("h_q_tree", 1, 3, 1, 6, bound="refused shapes, width 3", cost=3),
     C("h_q_tree", 2, 1, 0, 0, bound="every shape of nesting 2, width 1, all leaf kinds", cost=60, cap=300)]
    + [C("h_named", n, 3, k, w, bound="refused shape %d under every name and index" % k) for n in (1, 4) for k in (9, 10, 11, 7, 4) for w in (0, 1)]
    + [T("h_q_tree", 1, 2, 0, 0, bound="nesting 1, width 2, all leaves"), T("h_q_tree", 2, 2, 1, 0, bound="nesting 2, width 2"),
       T("h_q_tree", 3, 1, 1, 0, bound="nesting 3")]
    + [C("h_q_wide", k, bound="every 128-bit integer, signed or not, %s; 9 edges through the url" % t) for k, t in enumerate("alone,optional,in a newtype,in a list,in a map,in an object".split(","))],
    ["query: refused whatever its names", "query: a value that cannot be sent is an error", "query: every part of the value is sent",
     "query: a 128-bit number is sent as it is or refused", "query: a 128-bit number in the url is itself"],
    "wider or deeper values",
)
prop(
    "C08",
    [C("h_q_chain", n, bound="4 parameters of mixed shape after an existing query, strings of %d bytes" % n, cost=3 * n) for n in (0, 1, 2)]
    + [C("h_q_chain_names", n, bound="three parameters under any names of %d bytes" % n, cost=3) for n in (0, 1, 2)]
    + [C("h_many_params", n, bound="%d parameters, any one of them absent" % n, cost=n) for n in (1, 5, 12, 40)]
    + [T("h_q_chain", 3, bound="3 bytes")],
    ["query: many parameters accumulate", "query: parameters accumulate in call order"],
    "more than four parameters on one request",
)
prop(
    "C09",
    [C("h_form_str", a, b, bound="values of %d bytes, keys of %d bytes" % (a, b), cost=2) for a, b in ((0, 0), (1, 1), (2, 1), (1, 2))]
    + [C("h_form_str", n, 1, 1, bound="values of %d bytes: one ASCII byte repeated, 1 other" % n, cost=n / 2000) for n in (40, 300, 3000)]
    + [C("h_form_str", n, 0, 9, bound="values of %d bytes: constant but for a word of 2" % n, cost=n / 10000) for n in (9000, 70000, 300000)]
    + [C("h_form_tree", 1, 1, 0, 0, bound="every shape of nesting 1, width 1, all leaf kinds", cost=3),
       C("h_form_tree", 1, 2, 1, 0, bound="every shape of nesting 1, width 2, 4 leaf kinds", cost=6),
       C("h_form_tree", 2, 1, 1, 0, bound="every shape of nesting 2, width 1", cost=9),
       T("h_form_tree", 2, 2, 1, 1, bound="lists of pairs")]
    + [C("h_word", n, 5, 3, bound="keys and values of %d letters and digits" % n) for n in (3, 4, 5, 8, 12)]
    + [T("h_form_str", 3, 1, bound="3/1"), T("h_form_str", 2, 2, bound="2/2"), T("h_form_tree", 2, 1, 0, 0, bound="all leaves"), T("h_form_tree", 1, 2, 0, 0, bound="width 2")],
    ["form: words", "form: body decodes to the fields", "form: content type", "form: rest of the request intact",
     "form: every part of the value is sent", "form: a value that cannot be sent is an invalid-request error"],
    "larger bodies",
)
KINDS = ["u8", "bool", "string", "optional u8", "list of u8", "object", "enum", "unit", "unit after 'nul'", "bool after 'tru'", "enum string", "long string"]
prop(
    "C10",
    [C("h_decode", k, n, s, bound="%s decoded from a body with %d arbitrary bytes, chunking %d" % (KINDS[k], n, s), cost=n)
     for k, n, s in ((0, 0, 0), (0, 1, 1), (0, 2, 1), (0, 2, 2), (0, 3, 0), (1, 2, 0), (2, 1, 1), (2, 2, 0), (2, 3, 0), (3, 2, 0), (4, 2, 0), (5, 1, 0), (6, 2, 0),
                     (7, 0, 1), (7, 2, 0), (8, 1, 2), (8, 2, 0), (9, 2, 0), (10, 1, 1), (10, 2, 0), (11, 40, 0), (11, 200, 0))]
    + [C("h_decode", 5, 1, 1, bound="object, any split into two chunks", cost=12), C("h_decode", 12, 1, 0, bound="byte order mark before the text")]
    + [C("h_decode", k, n, 3, bound="%s, body at hand with its length known" % KINDS[k], cost=n) for k, n in ((0, 0), (0, 2), (2, 1), (3, 0), (5, 1), (7, 1))]
    + [C("h_decode_long", n, m, k, bound="%d bytes in chunks of %d, 2 or 3 free" % (n, m)) for n, m in ((300, 1), (9000, 4096), (70000, 70100), (70000, 16384)) for k in (0, 1, 2)]
    + [C("h_many_headers", 40, 0, bound="40 headers, repeated names")]
    + [T("h_decode", 4, 3, 0, bound="list, 3 bytes"), T("h_decode", 5, 2, 0, bound="object, 2 bytes"), T("h_decode", 0, 4, 0, bound="4 bytes"),
       T("h_decode", 2, 4, 0, bound="string of 4 bytes"), T("h_decode", 11, 2000, 0, bound="2000 bytes"), T("h_decode", 1, 4, 0, bound="bool, 4 bytes"), T("h_decode", 0, 3, 1, bound="3 bytes, split")],
    ["decode: a long document is its value", "decode: a long undecodable body is returned whole", "response: every header kept, with its values in order", "decode: value is the JSON body's", "decode: status and headers kept", "decode: an undecodable body is returned byte for byte",
     "decode: the decoder's own error"],
    "other target types; longer arbitrary bodies; the JSON decoder itself is the reference",
)
prop(
    "C11",
    [C("h_body_error", n, bound="failure after %d arbitrary bytes or a complete document" % n) for n in (0, 1, 2, 3)]
    + [C("h_body_error_long", n, m, bound="failure after %d chunks of %d bytes" % (n, m)) for n, m in ((1, 1), (2, 1), (40, 3), (3, 9000), (2, 70000))],
    ["body error: at any point of a long body", "body error: carries the transport's cause"],
    "more than one data chunk before the failure",
)
prop(
    "C12",
    [C("h_stream", n, bound="every schedule of %d events: wait, 1 byte, 2 bytes, failure" % n, cost=n) for n in (0, 1, 2, 3, 4)]
    + [C("h_stream_hand", n, bound="%d bytes at hand" % n) for n in (0, 1, 5)]
    + [C("h_stream_long", n, m, bound="%d chunks of %d bytes" % (n, m)) for n, m in ((60, 3), (3, 4096), (1, 9000), (300, 1))]
    + [C("h_byte_stream", n, bound="fixture stream of %d bytes" % n) for n in (0, 1, 5)]
    + [C("h_stream_waits", n, m, k, bound="%d chunks of %d bytes, waits, %s" % (n, m, "failure" if k else "end")) for n, m in ((100, 3), (5, 9000), (2, 70000), (1, 1), (0, 1)) for k in (0, 1)]
    + [C("h_stream_long", n, m, bound="%d chunks of %d bytes" % (n, m)) for n, m in ((2, 70000), (2000, 1))]
    + [C("h_many_headers", 40, 1, bound="40 headers")]
    + [T("h_stream", 5, bound="5 events"), T("h_stream", 6, bound="6 events")],
    ["stream: all bytes before the end arrive", "stream: ends or fails as the transport does", "response: every header kept, with its values in order", "stream: bytes arrive unchanged and in order", "stream: ends when the body ends", "stream: status and headers kept",
     "stream: a long transfer arrives unchanged", "stream: a fixture stream is passed through"],
    "longer schedules of waits and failures",
)
prop(
    "C13",
    [C("h_empty", 0, bound="every status, header sets, bodies: none, failing, non-empty")]
    + [C("h_many_headers", 40, 2, bound="40 headers, repeated names")],
    ["response: every header kept, with its values in order", "empty: status and headers kept, whatever the body"],
    "other headers",
)
prop(
    "C14",
    [C("h_upgrade", n, bound="every status 100..=999, body of 2x%d bytes" % n) for n in (0, 1, 2)]
    + [C("h_many_headers", 40, 3, bound="40 headers, repeated names")],
    ["response: every header kept, with its values in order", "upgrade: refused response intact", "upgrade: refused response's body intact",
     "upgrade: a 101 that cannot be upgraded is an invalid upgrade"],
    "a successful upgrade needs a live connection and is not encoded",
)
prop(
    "C15",
    [C("h_accessors", n, bound="every status, 64-bit payload and %d bytes" % n) for n in (0, 1, 4)]
    + [C("h_many_headers", 40, 2, bound="40 headers, mapped")],
    ["response: every header kept, with its values in order", "value: status and headers as given", "value: reads as the inner value", "value: writes reach the inner value",
     "value: into_inner is the inner value", "value: shown as the inner value is", "value: map keeps status and headers", "value: map applies to the inner value"],
    "other payload types",
)
prop(
    "C16",
    [C("h_content_length", 0, n, bound="every header value of %d bytes" % n, cost=n) for n in (0, 1, 2, 3, 4)]
    + [C("h_content_length", 1, n, bound="6 leading numerals followed by one byte repeated %d times" % n, cost=3) for n in (1, 2, 5, 18, 19, 20, 21)]
    + [C("h_content_length", 2, bound="header absent")]
    + [T("h_content_length", 0, 5, bound="5 bytes"), T("h_content_length", 0, 6, bound="6 bytes"), T("h_content_length", 1, 40, bound="40 digits")],
    ["content-length: the header's decimal number, if it is one", "content-length: absent", "content-length: never another header's number"],
    "numerals of more than 5 independent digits",
)
EK = ["invalid request", "communication", "upgrade", "error response", "body", "payload", "unexpected response", "pre-hook", "post-hook"]
prop(
    "C17",
    [C("h_err_status", k, bound="%s error, every status" % EK[k]) for k in range(9)],
    ["error: status of the response it came from", "error: untyped keeps the status"],
    "transport errors of a refused connection or a redirect (they need a network)",
)
prop(
    "C18",
    [C("h_err_untyped", k, n, bound="%s error, every status, %d bytes of text" % (EK[k], n % 100)) for k in range(9) for n in (0, 2, 140)]
    + [C("h_err_untyped", k, n, bound="%d bytes of text" % (n - 100)) for n in (4196, 70000) for k in (0, 5, 6, 7, 8)]
    + [C("h_many_headers", 40, 2, bound="40 headers on a documented error")],
    ["response: every header kept, with its values in order", "error: untyped keeps the kind and what it carries"],
    "transport errors of a refused connection or a redirect (they need a network)",
)
prop(
    "C19",
    [C("h_err_display", k, n, bound="%s error, %d bytes of text" % ((EK + ["streamed error response", "empty error response"])[k], n))
     for k in range(11) for n in (0, 1, 2) if n == 1 or k in (0, 5, 7, 8)]
    + [C("h_err_display", k, 100 + n, bound="%s error, %d letters and digits of text" % (EK[k], n)) for k in (0, 5, 6, 7, 8) for n in (5, 12, 40, 1500)],
    ["error: text names the kind and its details", "error: debug text is the display text", "error: alternate text adds every cause in order",
     "error: source is the underlying error"],
    "cause chains of more than 13 errors; statuses other than 200, 299, 404 in the text",
)
prop(
    "C20",
    [C("h_err_from", n, bound="status, builder, decoding, upgrade and body errors (9 i/o kinds, chains, urls), every header value of %d bytes" % n, cost=n) for n in (1, 2, 3)],
    ["error: transport errors are communication errors", "error: bad header values are invalid requests"],
    "transport errors of a refused connection or a redirect (they need a network)",
)


def G(entry, *args, **k):
    return Job("ops", entry, *args, **k)


def TG(entry, *args, **k):
    k.setdefault("tier", "thorough")
    k.setdefault("optional", True)
    k.setdefault("cap", 250)
    return Job("ops", entry, *args, **k)


STYLE = ["positional", "builder", "builder with tags", "positional, default transport"]
DOCS = "; other documents: the operations' shapes are those of harness/gen/docs.py, the data types are made by a stand-in for typify"
METHODS = "GET PUT POST DELETE HEAD PATCH OPTIONS TRACE".split()
LINES = {8: "no parameters", 9: "root", 10: "adjacent parameters and constant text", 11: "repeated slashes", 12: "a parameter used twice",
         13: "parameters named like keywords", 14: "leading parameter"}
prop(
    "C21",
    [G("g_line", i, m, 2, (i + m) % 3, bound="%s, %s, every value of 2 bytes" % (x, STYLE[m])) for i, x in enumerate(METHODS) for m in (0, 1, 2)]
    + [G("g_line", 0, 3, 2, 0, bound="GET through the default transport")]
    + [G("g_line", i, m, n, (i + m + n) % 3, bound="%s, %s, every value of %d bytes" % (LINES[i], STYLE[m], n), cost=n * n * (9 if i in (10, 13) else 1))
       for i in LINES for m in (0, 1, 2) for n in ((0, 1) if i in (10, 13) else (0, 1, 2, 3)) if n or i in (8, 9)]
    + [G("g_line", i, 0, 2, 0, bound="%s, every value of 2 bytes" % LINES[i], cost=200, optional=True) for i in (10, 13)]
    + [G("g_line", i, m, n, 0, bound="%s, values of %d bytes, one of them any" % ((METHODS[i] if i < 8 else LINES[i]), n), cost=n / 1000) for i in (0, 1, 10, 12) for m in (0, 1) for n in (300, 3000)]
    + [G("g_typed", m, k, bound="number, boolean and enumeration parameters, %s" % STYLE[m]) for m in (0, 1, 2) for k in (0, 1)]
    + [G("g_fails", m, bound="failing transport, every kind of operation") for m in (0, 1)]
    + [TG("g_line", i, m, n, 1, bound="%s, every value of %d bytes" % (LINES[i], n)) for i, n in ((10, 2), (11, 4), (12, 4), (13, 2), (14, 4)) for m in (0, 1)],
    ["line: the documented method is used", "line: the url is the base plus the filled-in template", 
     "line: numbers, booleans and enumerations fill the template with their text", "fail: the request is not repeated",
     "fail: a failed exchange is a communication error", "line: nothing undocumented is sent"],
    "values that make a whole segment '.' or '..'" + DOCS,
)
QN = ["the path parameter", "an inherited parameter", "an inherited optional", "an overridden one", "a hyphenated one", "an optional one", "a capitalised one"]
prop(
    "C22",
    [G("g_query", m, w, 2, 0, bound="%s is every text of 2 bytes, any subset present, %s" % (QN[w], STYLE[m]), cost=3) for m in (0, 1, 2, 3) for w in range(7)]
    + [G("g_query", m, w, 2, 1, bound="inherited parameters only, %s" % STYLE[m]) for m in (0, 1) for w in range(4)]
    + [G("g_scalars", m, k, bound="boolean, enumeration, %s around its limits, any subset present" % t, cost=3) for m in (0, 1) for k, t in enumerate(("i32", "u64"))]
    + [G("g_list", m, n, k, bound="%d items of %d bytes, %s" % (n, k, STYLE[m]), cost=n * k * 3) for m in (0, 1) for n, k in ((0, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 0))]
    + [G("g_query", m, w, n, 0, bound="%s of %d bytes, one of them any, any subset present" % (QN[w], n)) for m in (0, 1) for w in range(7) for n in (300, 3000) if n == 300 or w in (0, 5)]
    + [G("g_list", m, n, k, bound="%d items of %d bytes, %s" % (n, k, STYLE[m])) for m in (0, 1) for n, k in ((2, 300), (40, 0))]
    + [TG("g_query", m, w, 3, 0, bound="3 bytes") for m in (0, 1) for w in range(7)]
    + [TG("g_list", m, 3, 1, bound="3 items") for m in (0, 1)],
    ["query: each given parameter is sent once under its documented name", "query: parameters stay out of the path", "query: method"],
    "more parameters or longer values" + DOCS,
)
prop(
    "C23",
    [G("g_headers", m, n, k, bound="required value of %d bytes, optional of %d, %s" % (n, k, STYLE[m]), cost=n * k + 1) for m in (0, 1) for n, k in ((0, 0), (1, 1), (2, 1), (1, 2), (3, 0))]
    + [G("g_headers", m, n, k, bound="values of %d and %d bytes, one of the long one any" % (n, k)) for m in (0, 1) for n, k in ((300, 1), (1, 300), (3000, 0))]
    + [G("g_header_int", m, bound="every integer around its limits, %s" % STYLE[m], cost=2) for m in (0, 1)]
    + [TG("g_headers", m, n, k, bound="%d and %d bytes" % (n, k)) for m in (0, 1) for n, k in ((2, 2), (3, 1), (4, 0))],
    ["header: exactly the documented headers, with the caller's values", "header: a value no header can carry is an invalid request",
     "header: nothing is sent for an invalid value", "header: every other value is accepted", "header: header parameters stay out of the url"],
    "longer values" + DOCS,
)
BODIES = ["JSON object with query and header", "form", "octet stream", "plain text", "markdown", "JSON with charset", "JSON by reference"]
prop(
    "C24",
    [G("g_body", i, m, n, bound="%s body with every text of %d bytes, %s" % (b, n, STYLE[m]), cost=n * n * 2)
     for i, b in enumerate(BODIES) for m in (0, 1) for n in ((0, 1) if i in (0, 1, 6) else (0, 1, 2, 3))]
    + [G("g_body", i, m, 2, bound="%s body with every text of 2 bytes" % BODIES[i], cost=9) for i in (0, 1, 6) for m in (0, 1)]
    + [G("g_body", i, m, n, bound="%s body of %d bytes, one of them any" % (b, n), cost=n / 1000) for i, b in enumerate(BODIES) for m in (0, 1) for n in (300, 9000) if n == 300 or i in (2, 3)]
    + [TG("g_body", i, m, 3, bound="3 bytes") for i in (0, 1, 6) for m in (0, 1)],
    ["body: the content is the caller's, in the documented encoding", "body: the documented content type is announced",
     "body: parameters beside the body reach their places"],
    "other schemas; longer content" + DOCS,
)
ANSWERS = ["one success", "success and two error ranges", "two success and two error codes", "no content and default", "typed default", "code and default",
           "range and default", "only an error", "nothing usable", "raw success and error", "raw default", "code within a range", "empty ranges", "JSON with charset",
           "JSON among other types", "by reference", "codes at the edges of ranges", "codes outside success and error", "a type that only starts like JSON"]
prop(
    "C25",
    [G("g_respond", i, m, k, (i + k) % 2, bound="documented: %s; every status 100..=999; %s; %s" % (a, ("a success document", "an error document", "2 arbitrary bytes", "no body")[k], STYLE[m]))
     for i, a in enumerate(ANSWERS) for m in (0, 1) for k in range(4)],
    ["respond: a documented success is returned with its value, status and headers", "respond: a documented error is returned with its value, status and headers",
     "respond: a documented answer that does not decode is an invalid payload", "respond: an undocumented answer is unexpected and stays readable",
     "respond: one call sends one request", "respond: a documented JSON answer is asked for"],
    "answers documented with different data types within success or within errors (the generator refuses them)" + DOCS,
)
prop(
    "C26",
    [G("g_pages", m, p, i, t, bound="up to %d pages of up to %d items, tokens of %d characters, ending or failing anywhere, %s" % (p, i, t, STYLE[m]), cost=p * i)
     for m in (0, 1) for p, i, t in ((1, 2, 1), (2, 2, 2), (3, 1, 1), (3, 2, 1), (2, 1, 0))]
    + [G("g_pages", m + 2, p, i, 1, bound="runs of %d pages of up to %d items, any last page, %s" % (p, i, STYLE[m]), cost=4) for m in (0, 1) for p, i in ((40, 1), (4, 40))]
    + [TG("g_pages", m, p, i, 2, bound="up to %d pages of %d items" % (p, i)) for m in (0, 1) for p, i in ((4, 1), (4, 2), (5, 1))],
    ["pages: the items arrive in page order", "pages: exactly one request per page", "pages: the error of the failing page is passed on",
     "pages: every item of every page is delivered", "pages: a page is requested once, when its items are needed", "pages: nothing is sent before the stream is polled",
     "pages: the first request carries the caller's query and no token", "pages: later requests carry the token just received and the limit only",
     "pages: path and headers are the same on every page", "pages: the stream ends after the last page or the error"],
    "longer runs of pages of which several are varied" + DOCS,
)
prop(
    "C27",
    [G("g_hooks", m, bound="every outcome of both hooks and the transport, every status, %s" % STYLE[m]) for m in (0, 1)] + [G("g_hooks_sync", bound="synchronous hooks only")],
    ["hooks: each hook runs once, in order, around the one request, and sees its outcome", "hooks: a failing hook decides the result, otherwise the answer does",
     "hooks: nothing is sent after a failed pre-hook", "hooks: the hook's message is passed on", "hooks: the request is sent as the pre-hook left it"],
    "hooks that do not return" + DOCS,
)
prop(
    "C28",
    [G("g_builder", bound="every subset of required parameters, two orders, set once or twice, copied or not"),
     G("g_builder_conv", 0, bound="every i64 around the limits of the documented i32"),
     G("g_builder_body", 0, bound="bodies assembled from every subset of fields")]
    + [G("g_builder_conv", n, bound="every text of %d bytes for an enumeration" % n) for n in (1, 3, 5, 7)],
    ["builder: a missing required parameter is an invalid request", "builder: nothing is sent for an incomplete request", "builder: the last value set is the one sent, whatever the order",
     "builder: a value that does not convert is an invalid request", "builder: nothing is sent for an unconvertible value", "builder: the converted value is the one sent",
     "builder: an incomplete body is an invalid request", "builder: the assembled body is the one sent", "builder: a complete request is sent"],
    "other conversions" + DOCS,
)
prop(
    "C29",
    [G("g_socket", m, n, bound="every status, %d free nonce bytes, any subset of parameters, %s" % (n, STYLE[m])) for m in (0, 1) for n in (0, 1, 4, 16)],
    ["socket: only 101 starts an upgrade, everything else is unexpected", "socket: one call sends one request", "socket: the upgrade is asked for as the protocol prescribes",
     "socket: the key is the fresh nonce in base64", "socket: parameters reach their places"],
    "a successful upgrade; the quality of the random source (a stand-in yields symbolic bytes)" + DOCS,
)
prop(
    "C30",
    [G("g_locals", m, bound="any two letters in each of 8 parameters, %s" % STYLE[m]) for m in (0, 1)]
    + [G("g_page_locals", m, bound="three pages, any two letters in each of 6 parameters named like a stream's variables, %s" % STYLE[m]) for m in (0, 1)]
    + [G("g_line", 13, m, 1, 0, bound="path parameters named like keywords, %s" % STYLE[m], cost=3) for m in (0, 1, 2)],
    ["names: path parameters named like locals reach the path", "names: query parameters named like locals reach the query",
     "names: header parameters named like locals reach the headers", "names: absent parameters are not sent", "names: a stream delivers its items whatever its parameters' names",
     "names: parameters named like a stream's variables keep their places on every page", "line: the url is the base plus the filled-in template"],
    "other names" + DOCS,
)


def I(part, entry, *args, **k):
    j = Job("impl", entry, *args, **k)
    j.part = part
    return j


def TI(part, entry, *args, **k):
    k.setdefault("tier", "thorough")
    k.setdefault("optional", True)
    k.setdefault("cap", 250)
    return I(part, entry, *args, **k)


STANDIN = "the data types are made by a stand-in for typify"
prop(
    "C31",
    [I("template", "i_template", n, bound="every template: " + utf8(n), cost=n * n) for n in range(6)]
    + [I("template", "i_template", n, 1, bound="every template of %d ASCII characters" % n, cost=n * n) for n in (6, 7, 8)]
    + [I("template", "i_pieces", n, bound="%d pieces: slashes, braces, words, a parameter, one free character" % n, cost=4 ** n / 100) for n in (1, 2, 3, 4, 5, 6)]
    + [I("template", "i_template_many", n, bound="%d segments, one written in any of 4 ways with a free character" % n) for n in (9, 20, 100)]
    + [TI("template", "i_template", 6, bound="every template of 6 bytes", cost=90),
       TI("template", "i_pieces", 7, bound="7 pieces", cost=90)],
    ["template: kept, with adjacent slashes merged", "template: names its parameters in order", "template: malformed is refused"],
    "longer templates of other forms",
)
prop(
    "C32",
    [I("names", "i_ident", n, k, bound="every name of %d ASCII characters, %s case" % (n, c), cost=n ** 4) for n in (0, 1, 2, 3, 4) for k, c in enumerate(("snake", "Pascal"))]
    + [I("names", "i_word", n, k, bound="every word of %d letters and digits" % n, cost=n) for n in (3, 6, 12) for k in (0, 1)]
    + [I("names", "i_phrase", n, k, bound="%d pieces: words, capitals, digits, separators, one free character" % n, cost=n * n) for n in (2, 3, 4) for k in (0, 1)]
    + [I("names", "i_phrase", 2, k, m, bound="%d words before 2 pieces" % m, cost=3) for m in (4, 9, 20) for k in (0, 1)]
    + [I("names", "i_reserved", k, bound="every reserved word, alone or with any ASCII character before or after it", cost=9) for k in (0, 1)]
    + [I("names", "i_unique", n, bound="any %d names like the generator's own" % n, cost=n) for n in (0, 1, 2, 3)]
    + [TI("names", "i_phrase", 5, k, bound="5 pieces", cost=90) for k in (0, 1)]
    + [TI("names", "i_ident", 5, k, bound="every name of 5 ASCII characters", cost=90) for k in (0, 1)],
    ["names: every name becomes a Rust identifier", "names: nothing but punctuation becomes x", "names: letters and digits are kept in order", "names: words stay apart",
     "names: a legal name is kept, a reserved word gets an underscore", "names: the generator's own variables avoid every argument",
     "names: the generator's own variables are identifiers"],
    "names outside ASCII; longer names that are not one word",
)
prop(
    "C33",
    [I("validate", "i_version", n, bound="every version text of %d ASCII characters" % n, cost=n * n) for n in range(9)]
    + [I("validate", "i_version_near", a, b, bound="%d characters before and %d after 3.0. with one free character" % (a, b), cost=4) for a, b in ((0, 0), (0, 1), (1, 1), (2, 1))]
    + [I("validate", "i_ids", n, bound="%d paths, references or items with up to two operations, ids absent, shared or of their own" % n, cost=9 ** n / 9) for n in (0, 1, 2)]
    + [I("validate", "i_ids_many", n, bound="%d paths of all eight methods, any id absent or that of any other, first, middle or last" % n, cost=n) for n in (1, 3, 12)]
    + [TI("validate", "i_ids", 3, bound="three paths", cost=90)],
    ["document: accepted exactly for OpenAPI 3.0", "document: every operation needs an id of its own"],
    "three paths or more with several faults at once; versions outside ASCII",
)
prop(
    "C34",
    [I("params", "i_params", n, b, bound="%d parameters of any place, declared by operation or path, inline, by reference or overridden, %s" % (n, "with body" if b else "no body"), cost=8 ** n / 20)
     for n in (0, 1, 2) for b in (0, 1)]
    + [I("params", "i_params_many", n, k, b, bound="%d parameters, layout %d, two of any place" % (n, k), cost=n / 3)
       for n in (3, 7, 20, 21, 25, 33) for k in range(5) for b in (0, 1) if n < 22 or (k + b) % 3 == 0]
    + [I("params", "i_params_many", n, 9, 1, m, a, k, bound="%d query and header parameters in a repeating pattern, one of any place, and a body" % n, cost=9)
       for n, m, a, k in ((83, 7, 3, 3), (86, 8, 7, 4), (81, 10, 3, 4), (85, 10, 3, 5))]
    + [TI("params", "i_params_many", 64, k, 1, bound="64 parameters", cost=90) for k in (0, 1)],
    ["arguments: one per declared parameter", "arguments: name, place and whether required are the declared ones",
     "arguments: path in template order, query by name, headers by name, body"],
    "other mixtures of many parameters; " + STANDIN,
)
prop(
    "C35",
    [I("ops", "i_responses", n, d, bound="%d declared codes or classes of any kind of content%s; every status 100..=599" % (n, " and a default" if d else ""), cost=9 * n) for n, d in ((0, 1), (1, 0), (1, 1))]
    + [I("ops", "i_responses", 2, 2 + k, bound="two declared codes or classes%s, success with content kind %d; every status 100..=599" % (" and a default" if k % 2 else "", k // 2), cost=40) for k in range(14)]
    + [I("ops", "i_responses_many", n, bound="%d declared codes and classes, one of them left out, in either order, with a default or not; every status 100..=599" % n, cost=n) for n in (3, 7, 19)]
    + [TI("ops", "i_responses", 2, 0, bound="two declared codes or classes of any content; every status", cost=90),
       TI("ops", "i_responses", 2, 1, bound="two declared and a default", cost=90)],
    ["responses: success, error or unexpected as declared", "responses: decoded as the declared content", "responses: the result type is the declared one"],
    "documents whose successes (or errors) differ in kind among themselves, which the generator refuses; " + STANDIN,
)
prop(
    "C36",
    [I("schema", "i_s_string", k, bound="every string schema: format, enumeration, lengths of 32 bits, pattern, nullable", cost=9) for k in (0, 1)]
    + [I("schema", "i_s_" + x, *a, bound="every %s schema%s" % (y, " (%d members)" % a[0] if a else ""), cost=9) for x, y, a in
       (("number", "number", ()), ("integer", "integer", ()), ("boolean", "boolean", ()), ("object", "object", (1,)), ("object", "object", (2,)), ("array", "array", ()),
        ("alternatives", "allOf/anyOf/oneOf/not", (1,)), ("alternatives", "allOf/anyOf/oneOf/not", (2,)), ("loose", "untyped", (1,)), ("loose", "untyped", (2,)), ("reference", "reference", ()))]
    + [I("schema", "i_s_many", n, k, bound="%d %s, one of them any" % (n, x)) for n in (2, 5, 12, 40)
       for k, x in enumerate(("properties", "enumerated texts", "enumerated numbers", "of oneOf", "of allOf", "of anyOf"))]
    + [TI("schema", "i_s_loose", 3, bound="untyped schemas, 3 members", cost=120)],
    ["schema: a reference stays that reference", "schema: alternatives are kept in order", "schema: enumerated values are kept in order", "schema: format is kept", "schema: items are kept", "schema: no reference is invented", "schema: nullable alternatives allow null beside the rest", "schema: number limits are kept, exclusive or not", "schema: properties are kept under their names", "schema: required properties are kept", "schema: size limits are kept", "schema: text limits are kept", "schema: title, description, default, example, flags and extensions are kept", "schema: type and null"],
    "deeper nesting, more members; sizes above 32 bits; what typify makes of the translated schema",
)
prop(
    "C37",
    [I("ops", "i_pages", k, bound="varied: %s" % x, cost=9) for k, x in enumerate(("parameters of the operation", "the page's type", "declared responses and body"))],
    ["pages: a stream exactly for operations that return pages"],
    "other page types; " + STANDIN,
)
prop(
    "C38",
    [I("ops", "i_media", n, bound="every supported media type, one character changed, followed by %d free ones" % n, cost=n + 2) for n in (0, 1, 2, 3)]
    + [I("ops", "i_media_short", n, bound="every media type of %d ASCII characters" % n) for n in range(9)]
    + [I("ops", "i_media_op", bound="bodies of supported and unsupported types, inline and by reference"),
       I("ops", "i_body_schema", bound="every kind of schema for raw, text and structured bodies"), I("ops", "i_method", bound="every method")],
    ["body: sent as its media type, parameters aside", "body: an unsupported media type is refused", "body: is one argument",
     "body: raw and text bodies are unconstrained strings", "body: raw and text are passed through, others by type", "operation: keeps its method"],
    "other media types further from the supported ones; " + STANDIN,
)


def X(entry, *args, **k):
    return Job("tools", entry, *args, **k)


def TX(entry, *args, **k):
    k.setdefault("tier", "thorough")
    k.setdefault("optional", True)
    k.setdefault("cap", 250)
    return Job("tools", entry, *args, **k)


ARGS = ["a path parameter", "a numeric path parameter", "an enumeration", "a boolean", "a signed number", "a parameter named type", "a header", "a camel-case parameter"]
prop(
    "C39",
    [X("t_cli_view", k, bound="any subset of the %s arguments, in two orders, as one word or two" % t, cost=3) for k, t in enumerate(("required", "optional"))]
    + [X("t_cli_values", k, n, bound="%s is every ASCII text of %d bytes" % (t, n), cost=n * (9 if k in (1, 4) else 1))
       for k, t in enumerate(ARGS) for n in ((0, 1, 2, 3) if k not in (2, 3) else (0, 2, 3, 4, 5)) if n or k not in (0,)]
    + [X("t_cli_body", bound="bodies from fields, from a file, missing; three operations", cost=2)]
    + [X("t_cli_body_file", k, n, bound="a body file holding a word of %d letters and digits, as JSON may be written" % n, cost=2) for k in (0, 1, 2) for n in (1, 4)]
    + [X("t_cli_results", k, bound="every status 200..=599, four bodies, a failing transport", cost=2) for k in (0, 1, 2)]
    + [X("t_cli_pages", p, i, bound="up to %d pages of up to %d items, limits 0..=5, failures" % (p, i), cost=p * p * i * i * 3) for p, i in ((1, 1), (1, 3), (2, 2), (3, 3), (5, 1), (4, 2))]
    + [X("t_cli_commands", bound="every command of the document")]
    + [TX("t_cli_values", k, n, bound="%d bytes" % n) for k in (0, 1, 4, 5, 6, 7) for n in (4, 5)]
    + [TX("t_cli_pages", 5, 3, bound="5 pages of 3 items")],
    ["command line: exactly the required parameters are asked for", "command line: each argument reaches its own place",
     "command line: exactly the values of the documented type are accepted", "command line: the body is assembled from the arguments", "command line: a body file is sent as its value",
     "command line: the outcome is told once", "command line: exactly a success is a success",
     "command line: a list tells its items in order, up to the limit, and its end", "command line: every operation has its own command",
     "command line: a command has an argument for every parameter"],
    "body files that cannot be read or do not fit, or beside fields; operations with untyped answers, for which the generator leaves todo!(); negative numbers as a word of their own" + DOCS,
)
prop(
    "C40",
    [X("t_mock_match", k, n, m, bound="%s: two words of %d and %d letters and digits%s" % (t, n, m, "" if k < 3 else ", present or not, prescribed absent or not"), cost=n * (9 if k < 2 else 1))
     for k, t in enumerate(("a path parameter", "a last path parameter", "a required query parameter", "an optional one", "one named like a keyword"))
     for n, m in (((1, 1), (1, 2)) if k < 2 else ((1, 1), (3, 3), (2, 3), (8, 8), (0, 0), (0, 1), (1, 0)))]
    + [X("t_mock_match", 5, 1, 1, bound="a hyphenated number, present or not")]
    + [X("t_mock_other", n, bound="each of 9 operations' mocks against each one's requests, values of %d letters and digits" % n, cost=9) for n in (1, 3)]
    + [X("t_mock_body", n, m, bound="text and structured bodies, words of %d and %d" % (n, m), cost=3) for n, m in ((1, 1), (3, 3), (2, 3))]
    + [X("t_mock_answer", n, bound="each named answer, every status of its class, words of %d" % n, cost=2) for n in (1, 5)]
    + [X("t_mock_special", k, bound=t) for k, t in enumerate(("the path value '.'", "the path value 'x y'", "a form body"))]
    + [TX("t_mock_match", k, 2, 2, bound="words of 2 and 2") for k in (0, 1)],
    ["mock: matches exactly the requests with the prescribed value", "mock: matches its own operation's requests only",
     "mock: matches exactly the requests with the prescribed body", "mock: answers with the named status",
     "mock: the client returns what the mock was told to answer"],
    "path values other than letters and digits (see known findings); header parameters and raw bodies, for which the generator leaves todo!() or takes JSON; httpmock itself is replaced by a stand-in that matches as its documentation says" + DOCS,
)


def F(entry, *args, **k):
    j = Job("front", entry, *args, **k)
    j.part = "macro_" if entry.startswith("f_mac") else "cargo_" if entry.startswith("f_cargo") else "text_"
    return j


def TF(entry, *args, **k):
    k.setdefault("tier", "thorough")
    k.setdefault("optional", True)
    k.setdefault("cap", 250)
    return F(entry, *args, **k)


FRONT = (
    "; documents other than the harness's (what the generator makes of a document is C21-C40); typify, syn, proc-macro, serde_tokenstream, "
    "serde_yaml, rustfmt and clap's derive are stand-ins (the types told to typify are recorded, the YAML is a subset, code is not "
    "reformatted), clap itself is real; files and environment as the engine models them"
)
MODES = ["the name", "the name before @", "the version's numbers", "the version"]
prop(
    "C41",
    [F("f_mac_style", bound="every interface, tag style, inner type, order of options", cost=9)]
    + [F("f_mac_hooks", k, o, bound="two of the four hooks, each absent, a path or a closure, in either order; the others %s" % ("given" if o else "absent"), cost=5) for k in range(4) for o in (0, 1)]
    + [F("f_mac_types", bound="derives, map type, policies, patches", cost=9)]
    + [F("f_mac_crates", k, n, bound="a crate, %s of %d free printable characters" % (MODES[k], n), cost=n * n * n) for k in (0, 1, 3) for n in (0, 1, 2)]
    + [F("f_mac_crates", 2, 0, bound="a crate, %s any three digits" % MODES[2], cost=3)]
    + [F("f_mac_impls", n, k, bound="%d bounds of 4 kinds, each plain or negated" % n, cost=8 ** n) for n in (0, 1, 2) for k in (0, 1)]
    + [F("f_mac_settings", k, bound="the library's settings: one after another, of 14", cost=6) for k in range(14)]
    + [F("f_mac_pairs", k, bound="option %d of 13 with each other, in either order; all in turn" % k, cost=30) for k in range(13)]
    + [F("f_mac_doc", 0, n, bound="JSON and YAML, three places, both forms, a title of %d" % n, cost=3) for n in (0, 1, 2)]
    + [F("f_mac_doc", 1, n, bound="missing, truncated, empty, of another version", cost=1) for n in (0, 1)]
    + [TF("f_mac_crates", k, 3, bound="a crate, %s of 3 free printable characters" % MODES[k]) for k in (0, 1, 3)]
    + [TF("f_mac_impls", 3, k, bound="3 bounds of 4 kinds, each plain or negated") for k in (0, 1)],
    ["style: the code is the generator's for these options", "pairs: types are made under the options given",
     "pairs: every crate is named with its version and local name", "pairs: the code is the generator's for these options", "hooks: the code calls the given hooks in the given places",
     "hooks: exactly the given hooks are called", "settings: each takes effect whatever the others are", "types: every type derives what derives lists, in order", "types: a patch renames the named type and adds its derives",
     "types: types of unknown crates are treated as unknown_crates says", "crates: the crate is the one named",
     "crates: the local name is the one given", "crates: a name or version that is none is an error",
     "convert: a schema becomes the given type", "convert: conversions keep their schemas and order", "replace: a type is replaced by the given one",
     "replace: the type has the traits given, and FromStr and Display unless denied",
     "document: the client is that of the named document", "document: one that cannot be read or is not supported is an error"],
    "more than two crates, three bounds, two conversions or replacements" + FRONT,
)
NEEDS = ["uuid", "chrono", "regress", "serde_json", "pages", "web sockets"]
prop(
    "C42",
    [F("f_cargo_options", bound="every interface, tag style, client inclusion, older and longer files in place or not", cost=20)]
    + [F("f_cargo_names", k, n, bound="%s of %d free printable characters" % (t, n), cost=n) for k, t in enumerate(("the name", "the version", "the license", "the registry")) for n in (1, 2, 6)]
    + [F("f_cargo_needs", k, bound="a document that needs %s, alone and with each other need; client included or not, both interfaces" % t, cost=12) for k, t in enumerate(NEEDS)]
    + [F("f_cargo_space", k, n, bound="%d lines of 7 kinds and one of any character" % (n + 1), cost=7 ** n / 20) for k in range(7) for n in (1, 2, 3)]
    + [TF("f_cargo_space", k, 4, bound="5 lines of 7 kinds and one of any character") for k in range(7)]
    + [F("f_cargo_doc", 0, n, bound="JSON and YAML, a title of %d" % n) for n in (0, 1, 2)]
    + [F("f_cargo_doc", 1, n, bound="missing, truncated, empty, of another version") for n in (0, 1)]
    + [TF("f_cargo_names", k, n, bound="%d free printable characters" % n) for k in range(4) for n in (12, 40)],
    ["options: lib.rs is the client for these options", "options: lib.rs is the client for these options, with its support code",
     "options: the support code is the client library's", "options: the client library is a dependency unless included",
     "dependencies: every crate that the code uses is listed", "needs: the crate behind a type or operation is listed",
     "names: the manifest's name is the one given", "names: the manifest's version is the one given",
     "names: the manifest's license is the one given", "names: the manifest's registry is the one given",
     "document: the client is that of the given document", "document: one that cannot be read or is not supported is an error",
     "document: nothing is written for a bad one", "format: spacing items out adds empty lines only"],
    "names with characters that TOML escapes; failing writes" + FRONT,
)
PROPS["C30"]["jobs"] += [
    F("f_setters", k, bound="a builder's methods: %s" % t)
    for k, t in enumerate(("12 names that stay their own", "parameters named like the builder's own methods", "parameters whose names become one identifier"))
]
PROPS["C30"]["reach"] += ["names: a builder has one method of each name", "names: a builder has a method for every parameter"]
STYLES = ["positional", "builders", "separate tags"]
prop(
    "C43",
    [F("f_text_op", k, 9, 1, bound="%s: every combination of texts" % t, cost=3) for k, t in enumerate(STYLES)]
    + [F("f_text_op", k, f, n, bound="%s: %s of %d ASCII characters" % (t, w, n), cost=14 ** n / 12)
       for k, t in enumerate(STYLES) for f, w in enumerate(("the summary", "the description", "a parameter's description", "another's")) for n in (0, 1, 2) if n < 2 or k == 0 or f == 0]
    + [F("f_text_stream", 9, 1, bound="pages: every combination of texts", cost=3)]
    + [F("f_text_stream", f, n, bound="pages: %s of %d ASCII characters" % (w, n), cost=14 ** n / 12)
       for f, w in enumerate(("the summary", "the description", "the limit's description", "the token's", "another's")) for n in ((0, 1, 2) if f < 2 else (0, 1))]
    + [F("f_text_body", k, 9, 1, bound="%s, with header and body: every combination of texts" % STYLES[k], cost=12) for k in (0, 1)]
    + [F("f_text_body", k, f, 1, bound="%s, with header and body: %s of 1 ASCII character" % (STYLES[k], w), cost=2)
       for k in (0, 1) for f, w in enumerate(("the summary", "the description", "the header's description", "the query's", "the path's", "the body's"))]
    + [F("f_text_method", k, bound="%s: every HTTP method, four paths" % STYLES[k], cost=2) for k in (0, 1)]
    + [F("f_text_client", f, 1, bound="%s of 1 ASCII character" % w, cost=4) for f, w in enumerate(("the title", "the description", "the terms", "the version"))]
    + [F("f_text_line", f, n, bound="commands: %s of %d ASCII characters" % (w, n), cost=14 ** n / 12)
       for f, w in enumerate(("the summary", "the description", "a parameter's description", "another's")) for n in (0, 1, 2)]
    + [F("f_text_line", 9, 1, bound="commands: every combination of texts")]
    + [F("f_text_op", k, f, n, bound="%s: %s of %d characters, one of them any" % (STYLES[k], w, n))
       for k in (0, 1) for f, w in enumerate(("the summary", "the description", "a parameter's description")) for n in (100, 300, 3000) if n == 300 or k == 0]
    + [F("f_text_stream", f, 300, bound="pages: %s of 300 characters, one of them any" % w) for f, w in enumerate(("the summary", "the description", "the limit's description"))]
    + [F("f_text_line", f, 300, bound="commands: %s of 300 characters, one of them any" % w) for f, w in enumerate(("the summary", "the description", "a parameter's description"))]
    + [F("f_text_client", f, 300, bound="%s of 300 characters, one of them any" % w, cost=2) for f, w in enumerate(("the title", "the description", "the terms"))]
    + [TF("f_text_op", 0, f, 3, bound="%s of 3 ASCII characters" % w) for f, w in enumerate(("the summary", "the description", "a parameter's description"))]
    + [TF("f_text_client", f, 2, bound="a text of 2 ASCII characters") for f in range(4)],
    ["text: a method says what its operation says, sends and takes", "text: the example sets each parameter and sends",
     "text: a stream says what its operation says, sends and takes", "text: a builder's stream says what it sends", "text: send says what it sends",
     "text: a method names the request's method and path", "text: the client says what the document says of its API",
     "text: api_version is the document's version", "text: a command's help is its operation's summary and description",
     "text: an argument's help is its parameter's description"],
    "characters beyond ASCII other than in one constant; documentation of types (typify)" + FRONT,
)
prop(
    "C44",
    [F("f_tags", k, a, d, bound="three operations, any of two tags (%s) in either order, %s; tags %s" % (t, "one of them twice" if a else "merged", ("not told of", "told of, one described", "described")[d]), cost=30)
     for k, t in enumerate(("single letters", "two words", "alike", "a keyword and a digit", "of one name", "alike but for case", "one long")) for a, d in (((1, 0), (1, 1), (1, 2), (0, 1)) if k == 0 else ((1, 1),))]
    + [F("f_tag_name", n, m, bound="a tag of %d letters, another of %d described" % (n, m), cost=n) for n, m in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 3))]
    + [F("f_tags_many", n, m, bound="%d operations under %d tags in a pattern; one has none, all, the first or the last" % (n, m), cost=n) for n, m in ((2, 2), (6, 5), (12, 12), (3, 20))]
    + [TF("f_tag_name", n, m, bound="a tag of %d letters, another of %d described" % (n, m)) for n, m in ((4, 4), (5, 4))],
    ["tags: a tag has a trait exactly if an operation has the tag", "tags: the client has every tag's trait", "tags: the prelude has every tag's trait",
     "tags: a trait is named for its tag", "tags: an operation is in its tags' traits and no other", "tags: a trait's implementation has its operations",
     "tags: a trait says what the document says of its tag", "tags: an operation without tags is the client's own",
     "tags: a method makes its own operation's builder", "tags: an operation has one builder", "tags: the prelude has the client"],
    "other mixtures of many operations and tags" + FRONT,
)
CLIENTS = ["positional", "builders", "separate tags", "positional with inner value", "builders with inner value"]
prop(
    "C45",
    [G("g_made", k, 9, bound="%s: made either way, itself, a copy, or beside one; two calls" % t) for k, t in enumerate(CLIENTS)]
    + [G("g_made", k, n, bound="%s: any base URL of %d bytes (UTF-8)" % (t, n)) for k, t in enumerate(CLIENTS) for n in (0, 1, 2, 3, 6)]
    + [TG("g_made", k, 8, bound="%s: any base URL of 8 bytes (UTF-8)" % t) for k, t in enumerate(CLIENTS)],
    ["made: baseurl is the base URL given", "made: client is the connection given, or one that gives up after 15 seconds",
     "made: inner is the inner value given", "made: api_version is the document's", "made: a call sends one request",
     "made: requests go through the client's connection", "made: requests go to the base URL"],
    "what reqwest makes of the timeouts (its builder and connection are stand-ins that record); WebAssembly" + DOCS,
)
