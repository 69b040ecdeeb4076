"""What each check builds and how much it runs."""

ALL4 = ["varint", "fixed", "plain", "fixedplain"]


def derived(bin_, quick, thorough, qc=("varint",), tc=ALL4, rounds=5, families=(16, 24), style="", third=False):
    """Generated declarations: (rounds, random families per round) by tier."""
    return dict(bin=bin_, third=third, style=style, iters=dict(quick=quick, thorough=thorough),
                configs=dict(quick=list(qc), thorough=list(tc)),
                gen=dict(quick=(1, families[0]), thorough=(rounds, families[1])))


def builtin(bin_, quick, thorough, qc=("varint", "fixed"), tc=ALL4):
    return dict(bin=bin_, third=True, iters=dict(quick=quick, thorough=thorough),
                configs=dict(quick=list(qc), thorough=list(tc)))

PROPS = {
    "C01": dict(
        bin="c01", third=True,
        configs=dict(quick=["varint", "fixed", "plain"], thorough=ALL4),
        iters=dict(quick=700, thorough=60000),
        technique="property-based testing: round-trip over generated values of 172 type compositions",
        note="Random search with boundary-biased generators; no exhaustiveness claim. Equality is by an independent "
             "canonical encoding, so float bit patterns count. Trusts the Rust toolchain and the third-party crates.",
        rule="one case = 1..3 generated values of one built-in type composition, encoded one after another, "
             "followed by generated bytes, decoded in order; non-trivial when the encodings total at least 4 bytes; "
             "distinct by the whole byte string, per type and configuration",
        assumptions=["geo coordinates are not NaN", "paths are valid UTF-8", "system times are not before the epoch"],
    ),
    "C04": dict(
        bins=[builtin("c04", 400, 30000), derived("d04", 800, 8000, qc=["varint", "fixed"])],
        technique="property-based testing: differential skip vs decode on valid and corrupted encodings",
        note='Random search. On corrupted bytes only the agreement of the checking skip with decode is demanded, and that plain skips never panic.',
        rule="one case = a generated value's encoding followed by generated bytes, every skip entry point run on it and compared with where decode stops (valid), or a corrupted encoding on which skip_check must agree with decode; non-trivial when the encoding has at least 2 bytes (valid) or differs from the valid one (corrupted)",
    ),
    "C06": dict(
        bins=[builtin("c06", 500, 30000, qc=["varint", "fixed", "plain"]), derived("d06", 1000, 15000, qc=["varint", "fixed"])],
        technique="property-based testing: differential against an independent reference encoder",
        note='Random search. The reference encoder is written from the documentation of the wire format and shares no code with the crate.',
        rule='one case = a generated value encoded by the crate and by the reference encoder, byte for byte; non-trivial when the encoding has at least 2 bytes',
    ),
    "C09": dict(
        bins=[builtin("c09", 250, 25000), derived("d09", 600, 8000)],
        technique="property-based testing: truncation and structured corruption of valid encodings, differential against a reference decoder",
        note='Random search over corruptions of valid encodings; allocations above 64 MB asked for by hostile length prefixes are refused by the harness and excluded.',
        rule='one case = every proper prefix of a valid encoding, or a corrupted encoding given to decode or walked through at random; non-trivial when the input has at least 2 bytes and differs from a valid encoding; labels count inputs that the reference decoder says denote a value, nothing, or something the documentation leaves open',
    ),
    "C11": dict(
        bins=[builtin("c11", 400, 30000), derived("d11", 700, 8000)],
        technique="property-based testing with generated I/O schedules and injected faults",
        note='Random search over chunkings, interruptions and fault positions; every fault kind is injected at a generated byte position.',
        rule='one case = a value encoded through a writer, or decoded and skipped through a reader, that splits, interrupts or fails by a generated plan; non-trivial when the encoding has at least 2 bytes',
    ),
}
PROPS["C10"] = dict(
    bins=[builtin("c10", 8000, 1000000), derived("d10", 250, 4000, tc=["varint", "plain", "fixed"])],
    technique="property-based testing: differential against a reference integer decoder, exhaustive short encodings, and metamorphic widening",
    note="Exhaustive for all encodings of up to 2 content bytes per type; random search with boundary bias beyond.",
    rule="one case = a byte string fed to one integer type's decoder and skips, an integer in all its wire forms, or a value of any type, built-in or derived, with its integers, lengths and tags in wider forms; "
         "non-trivial when at least 2 bytes long (strings), above 1 (values) or some integer is wider than needed",
)
PROPS["C14"] = dict(
    bin="c14",
    configs=dict(quick=["varint"], thorough=["varint", "fixed"]),
    iters=dict(quick=200000, thorough=5000000),
    technique="stateful model-based testing: operation sequences against a cursor model",
    note="Random search over operation histories; borrowed slices are checked by address, not only by content.",
    rule="one case = a generated buffer and a history of 1..24 reader operations (with nested sub-readers); "
         "non-trivial with at least 3 operations on at least 2 bytes; distinct by buffer and history",
)
PROPS["C12"] = dict(
    bin="c12", third=True,
    configs=dict(quick=["varint", "plain"], thorough=ALL4),
    iters=dict(quick=700, thorough=60000),
    technique="stateful property-based testing: random walker histories checked step by step against the decoded value",
    note="Random search over values and operation histories; peeked bytes are checked by address, searches by the "
         "exact sequence of keys shown to the predicate.",
    rule="one case = a generated value (or a few in a row) of one container type and a random walk through its "
         "encoding; non-trivial with at least 2 walker operations; distinct by bytes and history",
)
PROPS["C13"] = dict(
    bins=[builtin("c13", 700, 60000, qc=["varint", "plain"]), derived("d13", 1500, 15000)],
    technique="stateful property-based testing: walker histories with injected illegal requests against the decoded value",
    note="Random search over values and histories mixing legal and illegal requests.",
    rule="one case = a generated value and a walk with illegal requests mixed in; non-trivial when at least one "
         "request was refused; distinct by bytes and history",
)
PROPS["C07"] = dict(
    bin="c07", third=True,
    configs=dict(quick=["varint", "fixed"], thorough=ALL4),
    iters=dict(quick=1500, thorough=100000),
    technique="model-based property testing: indexed lookups, elements and fields against a sorted model",
    note="Random search over contents, construction histories, probes and hints; returned slices are checked by address.",
    rule="one case = an indexed collection (or struct) with 0..300 entries and 1..8 lookups, present and absent, with "
         "and without hints; non-trivial with at least 2 entries; distinct by payload",
)
PROPS["C08"] = dict(
    bins=[builtin("c08", 1500, 200000), derived("d08", 600, 10000, style="optimised")],
    technique="property-based testing: structured corruption of offset tables, counts, flags, lengths and tags",
    note="Random search; allocations above 64 MB asked for by hostile counts are refused by the harness and excluded. "
         "The unvalidated sequence and struct constructors, documented to panic, are out of scope.",
    rule="one case = a valid indexed or optimised encoding with 1..2 edits of its header words or bytes, given to every "
         "decode, skip, walker and lookup entry point, or a corrupted value of a generated type decoded, skipped or walked at random; non-trivial when it differs from the valid encoding; distinct by bytes",
)
PROPS["C18"] = dict(
    bin="c18", third=True,
    configs=dict(quick=["varint", "fixed"], thorough=ALL4),
    iters=dict(quick=700, thorough=60000),
    technique="metamorphic property testing: construction histories, hashers and collection types against one reference encoding",
    note="Random search over contents and histories.",
    rule="one case = one content, built three ways in each of up to 6 collection types, encoded, compared with the "
         "reference encoding, and decoded into every type; non-trivial with at least 2 entries; distinct by encoding",
)

FAMILIES = "types are generated declarations (families of nested structs and enums with random revision histories, plus " \
           "hand-written ones), each written out as it stood at several points of its history; "
PROPS["C02"] = dict(
    bins=[derived("d02", 900, 15000, qc=["varint", "fixed", "plain"])],
    technique="property-based testing: round trips over generated values of generated type declarations",
    note="Random search over declarations and values. Trusts that the generator writes declarations as documented.",
    rule=FAMILIES + "one case = 1..3 values of one type (or of containers of it) encoded in a row, followed by generated "
         "bytes, decoded in order, or a value's revision header; non-trivial with at least 4 bytes; distinct by bytes",
)
PROPS["C03"] = dict(
    bins=[derived("d03", 3000, 20000, qc=["varint", "fixed"])],
    technique="model-based property testing: old declarations' bytes decoded by the latest against a migration model",
    note="Random search over histories and values; the migration model is generated with the declarations and "
         "shares no code with the macro.",
    rule=FAMILIES + "one case = a value of an earlier declaration, encoded by it, decoded by the latest and compared "
         "with the model's migrated value (conversion functions fold what they are given, in order, into a field), or "
         "a value with an unknown revision; non-trivial with at least 3 bytes; distinct by bytes",
)
PROPS["C05"] = dict(
    bins=[derived("d05", 3000, 20000, qc=["varint", "fixed"])],
    technique="stateful property-based testing: random walks over generated types at every revision against the migrated value",
    note="Random search over declarations, values and operation histories. Borrowed bytes are checked by address and "
         "content. Documented refusals (conversions pending, overrides, absent fields) are demanded where they apply.",
    rule=FAMILIES + "one case = a value at one point of its type's history and a random walk over its bytes under the "
         "latest declaration; non-trivial with at least 3 walker operations or checks; distinct by bytes and history",
)
PROPS["C15"] = dict(
    bins=[derived("d15", 2500, 60000, qc=ALL4, families=(6, 12), style="raw")],
    technique="property-based testing: overridden fields against a reference layout in all four configurations",
    note="Random search. Overrides on optimised revisions are a known finding (silently ignored) and not generated "
         "otherwise.",
    rule=FAMILIES + "here with fixed and specialised fields; one case = a value encoded, decoded, skipped, validated and "
         "walked against the reference layout, or an old value migrated, skipped or walked; non-trivial with at least "
         "3 bytes; distinct by bytes",
)
PROPS["C16"] = dict(
    bins=[derived("d16", 1500, 30000, qc=["varint", "fixed"]), builtin("c16", 5000, 300000, qc=["varint"], tc=["varint", "fixed"])],
    technique="property-based testing with exhaustive tag enumeration over generated optimised enums",
    note="All 256 tag bytes of every optimised revision of every generated enum are tried; bodies are random.",
    rule=FAMILIES + "one case = a tag byte with a generated body given to decode, skip, validate and walk at one "
         "revision, a value's own encoding, or a tag or envelope made by hand; non-trivial always, for envelopes with a body; distinct by bytes",
)

PROPS["C17"] = dict(
    python="c17",
    technique="property-based testing: generated declarations, valid and with one rule broken, judged by compiling them",
    note="Random search over declarations. Valid ones must compile, and their name tables, revision number and round trip "
         "must be as declared; each invalid one is a declaration that did compile with one of 46 rules broken, and must not.",
)

ASAN = dict(mem="asan")
MIRI = dict(mem="miri", third=True)
PROPS["C19"] = dict(
    bins=[dict(builtin("c19", 30, 3000, qc=["varint"], tc=["varint", "fixedplain"]), **ASAN),
          dict(derived("d19", 70, 2000, tc=["varint", "plain"], rounds=2), **ASAN),
          dict(builtin("m19", 3, 60, qc=["varint"], tc=["varint", "plain"]), **MIRI,
               sample=dict(quick=120, thorough=6000), limit=dict(quick=150, thorough=2400))],
    technique="property-based testing and fuzzing under memory checkers (AddressSanitizer and Miri)",
    note="Random search. The oracle is the checker: AddressSanitizer and the standard library's debug checks of unsafe contracts "
         "for the bulk, Miri (tree borrows) for a sample. Whether the cases pass otherwise is not judged here.",
    rule="one case = a case of C04, C07, C08, C09, C11, C13 or C14 (valid, corrupted and cut-off input; refused requests; "
         "readers and writers that split and fail), run for the memory checker alone; non-trivial as there",
)
PROPS["C20"] = dict(
    bins=[builtin("c20", 500, 40000, qc=["varint", "plain"]), derived("d20", 800, 12000)],
    technique="stateful property-based testing with counted allocations and element operations",
    note="Random search over values and histories. Allocations are counted by the harness's global allocator, decoded, "
         "skipped and compared elements by an element type that counts them.",
    rule="one case = a value skipped whole or walked by a random history of requests, each of which is watched; "
         "non-trivial when at least one request was watched or at least 2 bytes skipped; distinct by bytes and history",
    assumptions=["roaring and geo types and paths, whose skips decode, are left out"],
)
PROPS["C21"] = dict(
    bins=[builtin("c21", 500, 40000), derived("d21", 500, 8000)],
    technique="property-based testing with injected I/O faults and invalid contents at generated places",
    note="Random search over values, fault positions, kinds and places. What an invalid leaf must be reported as is read "
         "off the documentation of the error type.",
    rule="one case = a value read from or written to something that fails or ends at a generated position, a corrupted "
         "encoding reported by several entry points, or one invalid leaf among valid ones in a container, field, key or "
         "offset table; non-trivial with at least 2 bytes, or when the bytes differ from the valid ones; distinct by bytes and fault",
    assumptions=["what the roaring library reports for I/O errors is its own"],
)
