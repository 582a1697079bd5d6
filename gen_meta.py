#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
B = "protocol/bin-prot/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), claim=True, technique="", note="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), claim=claim, technique=technique, note=note, hook=hook))

prop("C01", "Variable-length integers: exact, shortest, range-checked",
     "Every integer of every width is written in the single shortest form that the bin_prot specification assigns to it (0..127 in one byte, else a code byte and 1, 2, 4 or 8 little-endian bytes; lengths in the unsigned variant), and reading that form returns the same number. "
     "Reading any byte string as an integer of a given type either returns exactly the number the specification assigns to those bytes or reports an error: it never wraps, truncates or changes sign when the number does not fit the requested type, and code bytes that the specification does not define are errors. "
     "64-bit unsigned values above the signed range travel as their two's complement and come back unchanged.",
     ["inputs"], "all values of i8..i64, u8..u64 and of the length encoding, and all byte strings read as one of these types",
     "the tests check some tens of values; the boundaries of five width classes in both signs and every undefined code byte are not sampled",
     [B+"read_ext.rs", B+"write_ext.rs", B+"ser.rs", B+"de.rs", B+"integers/integer.rs", B+"integers/nat0.rs"],
     [("integer and nat0 readers", B+"read_ext.rs"), ("integer and nat0 writers", B+"write_ext.rs"), ("range check on typed reads", B+"de.rs")],
     ["bytes written", "value or error returned"], technique="reference-model monitor over boundary sweeps and random integers",
     note="every 16-bit value, windows around all powers of two, every code byte with every payload length, plus random values, each compared with an encoder and decoder written from the specification; other values are sampled")
prop("C02", "Typed values: exact wire format and lossless round trip",
     "Any value of a supported type (unit, bool, integers, floats, one-byte characters, strings, options, sequences, hash tables, tuples, records, newtypes, enums of up to 256 variants with or without arguments, arbitrarily nested) is encoded to exactly the bytes that the bin_prot specification gives for it, field by field in declaration order, and decoding those bytes gives back the same value and consumes exactly those bytes, so that consecutive values can be read from one stream. "
     "A value that has no encoding (a character that does not fit in one byte) is refused with an error, never altered; the write methods report exactly how many bytes they wrote.",
     ["inputs", "programs"], "all type shapes built from the supported constructors and all their values",
     "the tests fix about thirty small values of a few types; nesting, long lengths, large variant numbers and value streams are not covered",
     [B+"ser.rs", B+"de.rs", B+"lib.rs", B+"array/mod.rs"], [("Serializer", B+"ser.rs"), ("Deserializer", B+"de.rs")],
     ["bytes written", "decoded value", "bytes consumed"], technique="reference-model monitor over generated types and values",
     note="randomly generated type shapes and values plus derived Rust types, compared byte for byte with a reference encoder; sampled, not exhaustive")
prop("C03", "Hostile bytes: decoding errors, never panics or memory blow-up",
     "Decoding any byte string, into any supported type, into a loosely typed value with any layout, or without a layout, returns a value or an error: it never panics and never loops without consuming input. "
     "Memory used stays proportional to the bytes actually supplied, whatever lengths those bytes claim. "
     "Bytes that are not an encoding of the requested type (unknown variant, option or boolean byte other than 0 or 1, non-zero unit, invalid UTF-8 in a string, truncated data, layout rule that is not supported) are errors, and when a value is returned it is the one the bytes encode.",
     ["inputs"], "all byte strings, all supported types and all layouts",
     "one test decodes one malformed input; hostile lengths, truncations and undeclared variant numbers are not exercised",
     [B+"de.rs", B+"read_ext.rs", B+"loose_deserializer.rs", B+"value/layout/traverse.rs", B+"value/visitor.rs"],
     [("checked reads", B+"read_ext.rs"), ("layout driven dispatch", B+"loose_deserializer.rs"), ("rule iterator", B+"value/layout/traverse.rs")],
     ["panic hook", "allocation monitor", "value or error returned", "watchdog"], technique="panic, allocation and hang monitors with a reference decoder on mutated inputs",
     note="mutations of valid encodings and noise under a panic hook and a counting allocator; recursion depth of layouts is bounded by the generator and lists of zero-width elements are excluded")
prop("C04", "Strict decoding accepts exactly one whole value",
     "Strict decoding of a stream succeeds exactly when the stream holds one encoding of the requested type and nothing after it. "
     "Any further byte, however the stream delivers it, is reported as an error, as is a stream that ends early or fails, and the value returned on success is the encoded one.",
     ["inputs", "fault_sequences"], "all values, all amounts of trailing data, all ways a reader can deliver the bytes",
     "no test uses strict decoding on a reader that delivers data in pieces",
     [B+"de.rs"], [("from_reader_strict", B+"de.rs")], ["value or error returned"], technique="reference-model monitor with a fault-injecting reader",
     note="random values, trailing bytes and delivery patterns (including readers that return one byte at a time, are interrupted or fail)")
prop("C05", "Stream independence: short reads, short writes and I/O faults",
     "The result of decoding does not depend on how the reader splits the bytes: short and interrupted reads give the same value as one contiguous buffer, and the bytes that encoding produces do not depend on how many bytes the writer takes per call. "
     "An error of the reader or writer, at any byte, is reported as an error of the operation: no value is fabricated, nothing is lost silently, and what was written up to then is a prefix of the encoding.",
     ["inputs", "fault_sequences"], "all values, all splittings of reads and writes, all fault positions",
     "the tests only use in-memory buffers that take and give everything at once",
     [B+"read_ext.rs", B+"write_ext.rs", B+"ser.rs", B+"de.rs"], [("exact reads", B+"read_ext.rs"), ("complete writes", B+"write_ext.rs")],
     ["bytes that reached the writer", "error kind"], technique="fault injection at every byte with a trace oracle on the byte stream",
     note="readers and writers that shorten, interrupt or fail at chosen bytes; typed and loosely typed values")
prop("C06", "Polymorphic variants: OCaml tags, exact selection, unknown tags refused",
     "A polymorphic variant is written as the tag OCaml computes for its label (in the tagged four-byte form) followed by its arguments, and reading returns the variant whose label has that tag with the same arguments, whatever other labels the type declares and in whatever order. "
     "A tag that belongs to no declared label is an error that names the problem, raw tags are written and read back unchanged, and a variant given by number is written as a one byte index if the number fits in a byte and as the tag otherwise.",
     ["inputs", "programs"], "all sets of labels, all arguments, all 31-bit tags",
     "the tests use two or three labels of one type",
     [B+"polyvar/caml_hash_variant.rs", B+"ser.rs", B+"de.rs", B+"read_ext.rs", B+"write_ext.rs"],
     [("label hash", B+"polyvar/caml_hash_variant.rs"), ("tag lookup", B+"de.rs")], ["bytes written", "variant returned", "error"],
     technique="reference-model monitor of the OCaml label hash and the codec",
     note="labels compared with OCaml's hash in unbounded arithmetic; one known finding: longer labels overflow in builds with overflow checks")
prop("C07", "Layout-driven decoding builds exactly the described tree",
     "Decoding bytes with a layout gives the tree that the layout describes: same records, field names and order, tuples, lists, options, variant names and indices, numbers, characters and floats as the bytes hold, and it consumes exactly the bytes of that value. "
     "Navigating the tree by field name, position or variant reaches exactly the part it names, and absent parts are reported rather than replaced. "
     "Reading the same bytes into a typed value under the same layout agrees with the tree.",
     ["inputs", "programs"], "all layouts of supported rules and all conforming byte strings",
     "the tests cover nine small hand-written layouts",
     [B+"loose_deserializer.rs", B+"value/visitor.rs", B+"value/layout/traverse.rs", B+"value/index.rs", B+"value/mod.rs", B+"value/enum_data.rs"],
     [("rule traversal", B+"value/layout/traverse.rs"), ("tree construction", B+"value/visitor.rs"), ("indexing", B+"value/index.rs")],
     ["decoded tree", "navigation results"], technique="reference-model monitor over generated layouts and values",
     note="random layouts and values against a reference decoder that shares no code with the library")
prop("C08", "Loosely typed values re-encode to the bytes they came from",
     "A value decoded from canonical bytes with a layout is encoded back to exactly those bytes, for every layout, including the layouts of Mina blocks, protocol states, transaction work and verification keys in the repository and the recorded main-net blocks. "
     "A loosely typed value assembled by an application encodes in the same way.",
     ["inputs", "programs"], "all layouts of supported rules, all values conforming to them, all blocks recorded in the repository",
     "the tests round trip nine small layouts; the test that covers real blocks belongs to crates that are not among those tested here",
     [B+"value/ser.rs", B+"value/visitor.rs", B+"loose_deserializer.rs", "protocol/layouts/external_transition.json"],
     [("Value serialization", B+"value/ser.rs")], ["re-encoded bytes"], technique="round-trip monitor against a reference encoder on generated and recorded data",
     note="random layouts, values generated for the four real layouts, and every recorded block in the repository")
prop("C09", "Layout files are parsed faithfully or refused",
     "Every layout file in the documented JSON form is parsed into exactly the rules it states (names, indices, hashes, argument lists and their order, references, optional attributes), whatever its nesting. "
     "A file that departs from the form (unknown rule, wrong or missing arguments, wrong types) is refused with an error and never panics or yields another layout.",
     ["inputs"], "all JSON documents",
     "the tests parse nine layouts and none that is malformed",
     [B+"value/layout/mod.rs", B+"value/layout/list_tagged_enum.rs"], [("list tagged conversion", B+"value/layout/mod.rs")],
     ["parsed rule", "error"], technique="reference-model monitor over generated and damaged layout files",
     note="random layouts, every real layout, and structural damage at every node kind")
prop("C10", "Versioned wrappers keep value and version on every path",
     "Wrapping a value (constructor, conversion, default; one to four nested levels) sets exactly the declared version at every level and keeps the value; unwrapping any number of levels returns that value. "
     "The encoding is the versions from the outermost to the innermost as integers, followed by the encoding of the value, and decoding keeps the versions found on the wire. "
     "The conversion helper macros convert in both directions without loss.",
     ["inputs", "programs"], "all values, all version numbers, one to four levels, all helper macros",
     "one test looks at the default of one type",
     ["protocol/versioned/src/lib.rs", "protocol/versioned/src/macros.rs"], [("Versioned", "protocol/versioned/src/lib.rs"), ("conversion macros", "protocol/versioned/src/macros.rs")],
     ["versions", "value", "wire bytes"], technique="reference-model monitor over version towers and values",
     note="ten value types, versions at the encoding boundaries, one to four levels, random values and foreign versions")
prop("C11", "Derived conversions are lossless and map every field to its namesake",
     "A derived conversion between a type and its targets (named structs, tuple structs, enums with any kind of variant; plain, list, optional and boxed fields; several targets; targets wrapped in one to four versions) moves every field to the field of the same name or position and every variant to the variant of the same name, keeps the order and number of list elements and the presence of optional ones, and sets the declared versions. "
     "Converting there and back, from either side, gives the value that was started from.",
     ["inputs", "programs"], "all deriving types of the supported shapes and all their values",
     "the tests convert one value per variant of three types whose fields come in one order",
     ["protocol/serialization-types-macros/src/auto_from.rs", "protocol/serialization-types-macros/src/lib.rs"],
     [("code generation", "protocol/serialization-types-macros/src/auto_from.rs")], ["converted value"], technique="differential monitor of source and target trees over generated values",
     note="fourteen deriving types that cover each shape the macro distinguishes, with random values; compile errors in the generated code count as violations")
prop("C12", "Command line tools report what the file holds, or fail cleanly",
     "The bin_prot checker writes the exact encoding of the named test value to standard output or to a file (replacing its content), and prints the value that a file or standard input encodes; the layout reader prints, or writes to the output file, the tree that the input encodes under the layout, with the input given raw or as hex text, and its round-trip option succeeds exactly when re-encoding reproduces the input. "
     "Malformed, truncated or missing input and malformed layouts end with a failure status, no value printed and the output file unchanged.",
     ["inputs", "configurations"], "all test kinds, option combinations, layouts, inputs and pre-existing output files",
     "no test runs either tool",
     ["protocol/bin_prot_checker/src/main.rs", "apps/bin-prot-layout-reader/src/main.rs"],
     [("checker", "protocol/bin_prot_checker/src/main.rs"), ("layout reader", "apps/bin-prot-layout-reader/src/main.rs")],
     ["exit status", "standard output", "output file"], technique="process-level monitor with a reference oracle in scratch directories",
     note="the real binaries, built from /repo's sources, run as processes on random and damaged input; files are small")

EXTRA = os.path.join(here, "meta_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
NA = globals().get("NA", [])

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
            observe_at=p["observe"], hook_needed=p["hook"])), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="none: no hook was needed, everything is observed at public interfaces", enable="nothing to enable", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if p["claim"]],
    not_applicable=[dict(property=a, reason=b) for a, b in NA],
    notes="known_findings.txt lists known findings and repaired defects; DESIGN.md explains the oracles.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
