"""What each check runs: variants (build profile, crate features), bounds."""
ASSUMPTIONS = [
    "rustc/LLVM up to the optimised post-LTO bitcode and the bitcode-to-formula translation are trusted; the translation is cross-checked on every run by executing sampled path models natively",
    "x86-64 little-endian target; the Rust standard library, serde and the listed third-party crates are executed symbolically as compiled, not modelled",
    "heap allocation succeeds unless a harness makes it fail",
]
REL, DBG = "rel", "dbg"
PROPS = {}

def prop(pid, runs, bounds, outside="", thorough_runs=None, **kw):
    PROPS[pid] = dict(bounds=bounds, outside=outside, quick=dict(runs=runs, **kw),
                      thorough=dict(runs=thorough_runs or runs, budget=3000, **kw))

prop("C01", [(REL, ["foreign"], "all"), (DBG, ["foreign"], "all")],
     "every history of 3 calls (4 in the thorough tier) of write/write_byte/write_str with every length 0..=capacity+1 and every content, "
     "on sinks of capacity 0..=3 (slice writer) or 3; histories of 2 writes and one write_byte at capacities 255..257 with lengths at 0,1,2,127,128,253,255,256,260; "
     "slices of every length up to isize::MAX for the refusal of oversized writes",
     "other capacities and longer histories; heapless LenType u32")

prop("C02", [(REL, ["foreign", "smallvec", "alloc"], "all"), (DBG, ["foreign", "smallvec", "alloc"], "all"),
             (REL, ["foreign", "smallvec", "std"], ["h_cursor_vec", "h_cursor_slice"])],
     "every history of 3 writes of lengths 0..=3 and any content on each growable sink, from empty, pre-filled, spilled and wrapped states; "
     "two writes of 1..300 bytes each; with every allocation allowed or refused (allocator limit chosen per history)",
     "longer histories and writes; TinyVec and io::Cursor growth failure (they abort by the library's own contract)")

prop("C03", [(REL, ["alloc"], "all"), (DBG, [], "all"), (REL, ["std"], ["h_cursor_writes", "h_cursor_json", "h_cursor_json_hex", "h_cursor_mp"])],
     "every value tree of depth 2 over all serde kinds (see harness opts), serialized to every fixed capacity below and at its encoded size "
     "(slice writer, io::Cursor over a slice and a boxed slice), every history of 3 writes on a cursor over 4 bytes, "
     "and to a sink failing at each write call in turn; both formats, all entry points; strings and byte strings of 20..40 bytes at every capacity and failing call",
     "deeper values; text written through Display (its formatting machinery may hide the sink's error code)")

prop("C04", [(REL, ["alloc"], "all"), (DBG, ["alloc"], "all")],
     "every value tree of depth 2 with up to 2 children, strings up to 4 bytes of any UTF-8, byte strings up to 4 bytes, every char; byte strings of 6..=35 bytes passed through with any 3 bytes in a row arbitrary",
     "deeper or larger values")

prop("J01", [(REL, [], "all"), (DBG, [], "all")],
     "every value of every integer type of 8 to 64 bits and usize/isize (the 32 and 64-bit ones as the value of every canonical numeral), as a value and as an object key; every canonical decimal text of every such value read back",
     "128-bit integers (not supported by the serializer)")

prop("J03", [(REL, ["alloc"], "all"), (DBG, [], "all")],
     "every byte sequence of up to 6 bytes (7 in the thorough tier); every quoted content of up to 6 bytes; contents of 6..=37 bytes with any 3 bytes in a row arbitrary, and of 126..262 bytes with 2 at 12 places; two pieces out of raw byte, backslash + any byte, "
     "backslash-u + any bytes; a unicode escape of every code unit with up to 2 characters before and behind; two code units in a row; mixed escapes with gaps; truncation of each",
     "longer strings otherwise (the reader's state is only the gap between read and write position)")

prop("J04", [(REL, [], "all"), (DBG, [], "all")],
     "every text of up to 5 bytes as any integer type and as an object key; every digit string near the limits of each type, with sign, leading and trailing bytes; numbers of up to 24 digits",
     "longer texts")

prop("J02", [(REL, [], "all"), (DBG, [], "all")],
     "every UTF-8 text of up to 4 bytes (5 in the thorough tier), of 6..=35 bytes with any 3 bytes in a row arbitrary, of 126..262 bytes with 3 at 12 places, up to three arbitrary ASCII characters with runs of unescaped text around and between, every char; "
     "every text of up to 3 bytes handed out by a formatter in three pieces, by string or by char; as a value and as an object key",
     "longer texts otherwise (the writer's state is only the start of the pending run)")

prop("J05", [(REL, ["alloc"], "all"), (DBG, [], "all")],
     "written: every byte string of up to 12 (hex, base64, pass-through) or 3 (array) bytes; read: every quoted content of up to 7 bytes as hex and base64, "
     "every base64 text of up to 8 characters, every bracketed content of up to 6 bytes and three-digit elements as an array; in both directions contents of up to 35 bytes with any 2 in a row arbitrary, and of 126..262 bytes with 2 at 12 places; the base64 functions themselves on up to 7 bytes",
     "longer contents; how base64 padding, which is never written, is treated")

prop("J06", [(REL, [], "all"), (DBG, [], "all")],
     "every value tree of the shapes in the harness: any kind holding up to 2 children of the kinds that hold others holding leaves, chains of depth 5, "
     "up to 4 fields with every combination of skipped fields, containers announcing no or a wrong length; texts and keys of plain letters, integers of one digit; 2 to 300 levels of one kind of container; sequences, tuples and maps of up to 300 elements",
     "other deep or wide values (the writer's only state is whether an element was written); the content of strings, integers and finite floats, which J01, J02, J05 and J15 decide")

prop("J08", [(REL, ["alloc"], "all"), (DBG, [], "all")],
     "every value tree of the shapes in the harness (depth 2 to 3 with up to 2 children, chains of depth 4), every leaf kind, every key kind, skipped fields, structs as objects and as arrays; every UTF-8 text of up to 4 bytes; 2 to 300 levels of one kind of container around any u8; sequences, tuples and maps of up to 300 elements with any u8 in one of three places",
     "deeper or wider values; wide integers (J01) and floats (J15)")

prop("J09", [(REL, [], "all"), (DBG, [], "all")],
     "every serde kind as a key, bare and behind one or two newtype structs, with any character or text of up to 2 ASCII bytes and one-digit integers; every UTF-8 text of up to 3 bytes as a borrowed key; "
     "every 2 bytes where a key belongs; every quoted content of up to 6 bytes as a boolean key",
     "longer keys; wide integers as keys (J01, J04)")

prop("J07", [(REL, [], "all"), (DBG, [], "all")],
     "every input of up to 4 to 8 bytes as sequence, tuple, map, struct and enum; nested types over up to 10 arbitrary bytes; texts with up to two pieces of 2 bytes replaced by anything; sequences and objects of up to 60 bytes with any 2 in a row arbitrary; every truncation; "
     "objects in every order with missing, repeated and unknown keys; derived types; 2 to 300 levels of one kind of container with one of five closing bytes replaced by anything; sequences, tuples and maps of up to 300 elements",
     "longer arbitrary inputs")

prop("J10", [(REL, ["alloc"], "all"), (DBG, ["alloc"], "all")],
     "every input of up to 5 bytes as nested containers, 7 as every scalar type and every container, 9 without a type hint and skipped, 4 as floats; up to 9 bytes of string content in every decoder; "
     "up to 7 bytes as 16 derived types by every entry point, texts of them with up to 2 bytes replaced; owned collections, untagged and tagged enums; two calls of the public reading functions on up to 5 bytes; nesting up to 2900 deep skipped",
     "longer arbitrary inputs; public functions called outside their documented preconditions; the stack used by deserializing recursive types, which follows the nesting of the input by design")

prop("J11", [(REL, [], "all"), (DBG, [], "all")],
     "every string content of up to 6 bytes as each type that borrows in each decoder; two of up to 4 and 3 bytes in a sequence, 3 and 3 as a map entry; byte arrays of up to 5 bytes of text between texts; "
     "texts of every kind with up to 2 bytes replaced; every input of up to 7 bytes read in front of text that is then overwritten; contents of 6..=33 bytes with any 2 in a row arbitrary in front of another",
     "longer contents")

prop("J12", [(REL, [], "all"), (DBG, [], "all")],
     "up to 3 arbitrary bytes between any two tokens and in front of and behind texts given to the public functions, and 1 to 2 around every token of texts covering every kind; every blank string of up to 8 bytes as a document; runs of 3..=30 blanks at every place and of 126..262 at three with any one byte of them arbitrary; the public reading functions",
     "longer runs otherwise (the reader's state there is only the position)")

prop("J13", [(REL, [], "all"), (DBG, [], "all")],
     "every ignored value of up to 9 bytes; up to 3 replaced bytes in texts of every kind, alone and between fields of a struct; every quoted content of up to 5 bytes as value and key; runs of backslashes; "
     "numbers of up to 6 characters; strings, arrays, objects, numbers and blanks of 6..=33 bytes with any 2 in a row arbitrary and of 126..262 with 2 at 12 places; containers nested up to 2000 deep; sequences and objects of up to 300 elements and 2 to 300 levels of every kind of container with a byte in five places replaced by any",
     "longer arbitrary values")

prop("J14", [(REL, [], "all"), (REL, ["de-any-f32"], "all"), (DBG, [], "all")],
     "every input of up to 8 bytes without fraction or exponent, every number of 3 characters of any form; every integer of up to 18 digits, 19 to 21 digits at the 64-bit limits; texts of every kind with up to 2 bytes replaced; value trees of depth 3; "
     "every input of up to 5 bytes compared with reading as each scalar type; 2 to 600 levels of one kind of container; sequences and maps of up to 300 elements",
     "longer arbitrary inputs")

prop("J15", [(REL, ["ryu"], "all"), (DBG, ["ryu"], "all"), (REL, [], "all"), (DBG, [], "all"), (REL, ["de-any-f32"], ["h_read_any"])],
     "every bit pattern of f32 and f64 written in ten places by every byte encoding, with the formatter (crate ryu-js) replaced by an injective text of type and bits; "
     "every text of up to 4 bytes read as f32 and f64; up to 3 bytes among other values; long numbers with any piece of 1 byte replaced; fifteen values written by the real formatter and read back",
     "the formatter and the decimal parser themselves (dependencies); the sign of zero, which the formatter does not write")

prop("M01", [(REL, [], "all"), (DBG, [], "all")],
     "every value of every integer type of 8 to 64 bits written, as a value, sequence element and map key, in the three layouts; "
     "every marker with every payload read as every integer type",
     "128-bit integers (not supported)")

prop("M02", [(REL, ["alloc"], "all"), (DBG, [], "all")],
     "strings, byte strings, variant and field names, sequences and maps of every announced length up to 2^32 and beyond (the sink records the header only); every content of up to 4 bytes",
     "")

prop("M03", [(REL, [], "all"), (DBG, [], "all")],
     "every bit pattern of f32 and f64 written and read; every integer marker with every payload read as a float",
     "")

prop("M04", [(REL, ["alloc"], "all"), (DBG, [], "all")],
     "every value tree of the shapes in the harness (depth 2 to 3, up to 2 children, every leaf and key kind, skipped fields) in the compact, indexed and named layouts, read from input followed by arbitrary bytes; 2 to 300 levels of one kind of container; sequences, tuples and maps of up to 300 elements, sequences and tuples of 65535 and 65536; structs of up to 65536 skipped fields before the one written",
     "deeper or wider values; lengths above 31 (M02)")

prop("M05", [(REL, [], "all"), (DBG, [], "all")],
     "sequences, tuples, maps and structs announcing every length 0..=3 (or none) and giving 0..=3 elements, nested in each other, every combination of skipped fields, in the three layouts",
     "longer containers")

prop("M06", [(REL, ["alloc"], "all"), (REL, [], ["h_holders", "h_two", "h_entries"]),
             (DBG, ["alloc"], ["h_any", "h_counts", "h_deep_eat", "h_deep_skip", "h_entries", "h_holders", "h_owned", "h_scalars", "h_skipped", "h_two", "h_walk"])],
     "every input of up to 10 bytes as every scalar type; of up to 4 bytes as containers of two elements; up to 3 bytes as nested containers; up to 5 bytes without a type hint and skipped; "
     "up to 4 bytes as 16 derived types; three calls of the public reading functions on up to 3 bytes; containers nested 2000 deep skipped; owned collections with counts the input cannot back",
     "longer inputs; the stack used by deserializing recursive types, which follows the nesting of the input by design")

prop("M07", [(REL, [], "all"), (DBG, [], "all")],
     "every input of up to 5 bytes (6 in the thorough tier); every marker with up to 40 bytes of content; every length of every string, binary and extension header over inputs of any size up to 2^40; "
     "arbitrary bytes (up to 4), value trees, leaves and extension values (bare and nested) skipped in five places of a struct; containers nested 300 to 1500 deep; sequences and maps of up to 300 elements and 2 to 300 levels of every kind of container with a header replaced by ten others or the last byte by any",
     "longer arbitrary inputs")

prop("M08", [(REL, [], "all"), (DBG, [], "all")],
     "every strict prefix of the encoding of every value tree of the shapes in the harness in the three layouts, read as the type, without a type hint and skipped; of strings, binaries and containers with wide headers; "
     "of derived types; of every accepted input of up to 5 bytes, minimal or not, as every type",
     "deeper or wider values")

prop("M09", [(REL, [], "all"), (DBG, [], "all")],
     "every input of up to 6 bytes (7 in the thorough tier); every scalar marker with its whole payload; every string and binary header over up to 34 bytes; every container header over up to 3 arbitrary bytes; value trees in the three layouts; 2 to 600 levels of one kind of container; sequences and maps of up to 300 elements",
     "longer arbitrary inputs")

prop("M10", [(REL, [], "all"), (DBG, [], "all")],
     "structs of up to 2 fields (3 for orders) of integer, string, optional and sequence type, from an array under every header and from maps under every header with every key form, order, missing, repeated and unknown entry; "
     "counts 0..=3 for every number of fields; readers that leave elements; any up to 4 bytes as a key; every index up to 2^32-1 in every form and names of 16 lengths up to 300 in every form, as a struct field, map key and enum variant; derived structs, tuples and struct variants",
     "structs of more fields")

prop("M11", [(REL, [], "all"), (DBG, [], "all")],
     "every input of up to 7 bytes as every scalar, string and binary type, at offsets 0..=3; every number marker with its whole payload; headers of every width over up to 48 bytes; payloads of 6..=35 bytes with any 2 in a row arbitrary and of 126..262 with 2 at 12 places; up to 5 bytes as containers, options and enums; two borrowed values in one container of up to 7 bytes",
     "longer inputs")

prop("M12", [(REL, [], "all"), (REL, ["alloc"], "all"), (DBG, [], "all"), (DBG, ["alloc"], "all")],
     "every text of up to 3 bytes in three pieces handed out by string, by character or by nested formatting; texts of 28..=35 bytes with any 2 in a row arbitrary; lengths 30..300 at the header changes, with multi-byte characters at five places; every u8; a formatter failing before each piece; "
     "values that format differently in a second pass; as element, key and field; in MessagePack (three layouts, with and without alloc) and JSON",
     "longer texts otherwise")
