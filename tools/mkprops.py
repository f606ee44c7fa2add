import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
SW='src/lib.rs'; SF='src/foreign.rs'
JS='ser-write-json/src/ser.rs'; JD='ser-write-json/src/de.rs'; JB='ser-write-json/src/base64.rs'
MS='ser-write-msgpack/src/ser.rs'; MD='ser-write-msgpack/src/de.rs'

p('C01','Fixed-capacity sinks append all or nothing',
 'A write to a fixed-capacity sink (the slice writer, and the bundled ArrayVec, heapless and tinyvec fixed-size buffers) either appends exactly the given bytes after the existing content, or fails with "buffer full" and leaves content and length unchanged. It fails exactly when the bytes do not fit in the remaining capacity, and single-byte and string writes behave as byte-slice writes of the same bytes. Clearing, splitting and capacity queries of the slice writer agree with the content so written.',
 ['inputs','histories'],'every capacity, prior content, written data and sequence of write/write_byte/write_str calls',
 'Unit tests write a few hand-picked lengths; off-by-one at the exact capacity boundary, an untouched tail or a partially written chunk depends on the combination of capacity, prior length and data length.',
 [SW,SF],[('SliceWriter bounds check before copy',SW+': impl SerWrite for SliceWriter'),('try_extend / capacity checks and grab_spare_slice_mut',SF)],
 ['SliceWriter::as_ref, len, rem_capacity, split','as_slice()/len() of the foreign buffers'],[('len','bytes already written',SW+': SliceWriter')])
p('C02','Growable sinks append exactly; allocation failure is an error',
 'A write to a growable sink (Vec, VecDeque, cursor over a Vec, SmallVec, TinyVec) appends exactly the given bytes after the existing content in order. When memory for the growth cannot be obtained, the write to Vec, VecDeque, SmallVec reports "buffer full" instead of aborting or panicking and leaves the previous content intact.',
 ['inputs','histories','fault_sequences'],'every write sequence, ring-buffer position, inline/heap state and allocation outcome within the bounds',
 'Tests never make an allocation fail and write one or two literals; inline-to-heap spills, wrapped ring buffers and failing allocators are not reached.',
 [SW,SF],[('try_reserve before extend',SF)],['content of the collection after the call','the allocation calls made'])
p('C03','Out-of-space never yields silent truncation',
 'Serializing any value, to JSON or MessagePack, into a sink with a fixed capacity succeeds exactly when the complete encoding fits, and then holds precisely that encoding. Otherwise the call returns the writer\'s "buffer full" error, and the sink holds a proper prefix of the complete encoding. Any error a sink returns, at any write call, is what the serializer call returns (for text written through Display, some error).',
 ['inputs','fault_sequences'],'every value of representative types, every capacity from 0 up and every write call at which the sink may fail',
 'Tests check one too-small buffer for a couple of values; a dropped "?" on one write call in one serializer path only shows when exactly that call is the one that fails.',
 [JS,MS,SW],[('error propagation through every write call',JS),('error propagation through every write call',MS)],['to_writer* result','sink content'])
p('C04','All serialization entry points agree and strings are valid UTF-8',
 'The String and Vec producing functions of both formats return exactly the bytes that the corresponding writer-based function sends to a sink, appending to what is already there when they are given a collection. Every JSON text returned as a String is valid UTF-8.',
 ['inputs','configurations'],'every value of representative types; std and alloc configurations',
 'The string producers skip UTF-8 validation; tests compare a few ASCII outputs.',
 [JS,MS],[('unchecked String construction from the encoder output',JS+': to_string*'),('to_vec* helpers',MS)],['returned String/Vec'])

p('J01','JSON integers are written in canonical decimal',
 'Every integer of every supported width is written to JSON as its exact value in canonical decimal: an optional minus sign, no plus sign, no leading zero, no exponent. Reading that text back as the same type yields the same value. Used as an object key the same text appears between double quotes.',
 ['inputs'],'every value of i8..i64, u8..u64 (and isize/usize)',
 'Tests sample MIN, MAX and a few values of the 2^64; a wrong digit pair or a too-small buffer shows at particular magnitudes only.',
 [JS,JD],[('digit buffers filled backwards by division',JS+': serialize_unsigned/serialize_signed macros')],['to_writer output','from_mut_slice result'])
p('J02','JSON strings are escaped correctly and decode to the same text',
 'Any text (string, character, or Display-formatted value, as a value or as an object key) is written as one JSON string token: a closing quote, reverse solidus or control character below U+0020 never appears raw inside, and all other characters are written unchanged. Decoding the token by the rules of RFC 8259 gives back exactly the original text, both with an independent decoder and with this crate.',
 ['inputs'],'every text of up to the stated number of bytes, every char',
 'Tests use a few literal strings; the escape decision is a per-byte table and chunk bookkeeping between escapes depends on their positions.',
 [JS,JD],[('ESCAPE table and chunked copy',JS+': format_escaped_str_contents')],['to_writer output','from_mut_slice result'])
p('J03','JSON string tokens decode exactly as RFC 8259 says',
 'Given any bytes, deserializing a string, borrowed string or char succeeds exactly when they are a well-formed JSON string token (surrounding whitespace allowed) of valid UTF-8 with valid escapes, and yields the text the escapes denote. A lone or paired surrogate escape, an unknown escape, a truncated token or invalid UTF-8 is an error, never wrong text.',
 ['inputs'],'every byte buffer up to the stated length',
 'In-place unescaping moves bytes inside the buffer; tests try a handful of escapes at fixed positions.',
 [JD],[('in-place unescape',JD+': parse_str_content / parse_str_bytes_content')],['from_mut_slice::<&str>, ::<String>, ::<char>'])
p('J04','JSON integer parsing is exact or an error',
 'Reading an integer of any width from any JSON text either returns exactly the decimal value written, or an error; it never wraps, truncates or returns a different number. A value outside the target type, a sign on an unsigned type, a missing digit, a fraction or an exponent is rejected.',
 ['inputs'],'every byte buffer up to the stated length, for i8..i64 and u8..u64, as value and as object key',
 'Overflow detection must be right at each width boundary and for every digit count; tests sample a few boundary literals.',
 [JD],[('checked multiply-add accumulation',JD+': parse_unsigned/parse_signed/parse_unsigned_bare')],['from_mut_slice::<intN>'])
p('J05','JSON byte codecs round-trip and reject malformed text',
 'Bytes serialized as hex, base64 or an array of numbers and read back with the matching entry point give the original bytes; the hex text is upper-case two digits per byte and the base64 text is the standard alphabet without padding. Decoding accepts hex of either case with an even digit count only, and rejects any character outside the alphabet, an impossible base64 length or an array element outside 0..=255. The pass-through encoding writes the bytes verbatim. The public base64 functions report the padding a text would need and the lengths decoded and consumed up to the first character outside the alphabet.',
 ['inputs'],'every byte string up to the stated length, and every text up to the stated length as decoder input',
 'Base64 tail handling and in-place decoding have length-mod-4 and aliasing cases, with unchecked unwraps; tests use a few literals.',
 [JB,JS,JD],[('base64::encode/decode',JB),('hex/base64/array in-place decoding',JD)],['to_writer{,_hex_bytes,_base64_bytes,_pass_bytes}','from_mut_slice{,_hex_bytes,_base64_bytes}'])
p('J06','Compound values are written as the right JSON text',
 'Sequences, tuples, maps, structs, options, units, booleans and all four enum variant shapes, nested in any way and with or without skipped fields, are written as compact valid JSON following the documented mapping: variants as "Name" or {"Name":value}, None/unit/non-finite floats as null, structs and maps as objects, with a comma exactly between elements and brackets balanced.',
 ['inputs','programs'],'every sequence of serializer calls of bounded size and nesting, with arbitrary scalars',
 'Comma and bracket state is carried across calls; tests serialize fixed structs and never empty/skip/None combinations systematically.',
 [JS],[('first-element flag and closing brackets',JS+': SeqSer/StructSer')],['to_writer output'])
p('J07','JSON structure is accepted exactly when the grammar allows it',
 'Reading a sequence, tuple, map, struct or enum accepts exactly a balanced JSON value with single commas between elements, a colon after every key and arbitrary whitespace between tokens. A leading, doubled or trailing comma, a missing colon or comma, an unclosed or mismatched bracket is an error. Accepted input yields precisely the elements written, in order, the same whether a struct is given as an object in any key order or as an array.',
 ['inputs'],'every token sequence and every byte buffer up to the stated length',
 'Tests cover selected malformed literals; separators are checked at several places (first, next, last) for each container kind.',
 [JD],[('CommaSeparated access',JD+': next_element_seed/next_key_seed'),('enum access',JD)],['from_mut_slice result'])
p('J08','Values round-trip through JSON',
 'For every value of a serde type built from booleans, integers, characters, strings, bytes, options, sequences, tuples, maps, structs and enums, serializing to JSON and deserializing the result into the same type gives an equal value, for each bytes encoding and from both object and array form.',
 ['inputs','programs'],'every value of representative types within size bounds',
 'Round-trips in the tests are of fixed example values.',
 [JS,JD],[('serializer/deserializer pairs',JS),('serializer/deserializer pairs',JD)],['from_mut_slice(to_writer(v)) == v'])
p('J09','JSON object keys are text and follow the key rules',
 'Every object key written is a JSON string: string, character, boolean, integer and unit-variant keys are accepted and written as their text in quotes, any other key type is refused with the invalid-key-type error. Reading a key of integer, boolean, character, string or unit-variant type accepts the text that was written for it and yields the same key.',
 ['inputs'],'every key value and key type, with arbitrary values beside it',
 'Tests try a few literal keys; quoting and unquoting differ per key type.',
 [JS,JD],[('KeySer',JS),('MapKey deserializer',JD)],['to_writer output of maps','from_mut_slice of maps'])
p('J10','No JSON input can panic, corrupt memory or hang the reader',
 'For any bytes whatsoever and any supported target type, JSON deserialization terminates with a value or an error: it never panics, reads or writes outside the given buffer, reads uninitialised memory, or loops forever. This holds with and without debug assertions.',
 ['inputs','configurations'],'every byte buffer up to the stated length, for a set of target types that covers every deserializer method; checked and unchecked builds',
 'The reader uses unchecked indexing, raw pointers and in-place writes; an adversarial buffer, typically a truncated one, is needed to reach them.',
 [JD,JB],[('bounds checks in peek/eat/split_input',JD)],['outcome of from_mut_slice'])
p('J11','Borrowed JSON data stays valid and untouched',
 'Strings and byte slices borrowed from the input buffer lie inside it, do not overlap one another, and keep the value that was decoded while the rest of the input is parsed. The reader writes only to parts of the buffer it has consumed for the value being decoded, so sibling values decode as if parsed alone.',
 ['inputs'],'every input holding several borrowed fields, up to the stated length',
 'Unescaping and byte decoding rewrite the buffer in place; aliasing between two borrowed fields needs specific escape positions.',
 [JD],[('split_input hands out disjoint slices',JD)],['addresses and contents of the borrowed values after the call returns'])
p('J12','JSON documents are consumed whole',
 'Reading succeeds only if nothing but JSON whitespace follows the value; anything else after it is the trailing-characters error. Whitespace before and between tokens is skipped and is exactly space, tab, line feed and carriage return.',
 ['inputs'],'every value text followed and preceded by arbitrary bytes',
 'Tests append one or two characters.',
 [JD],[('end()',JD),('eat_whitespace',JD)],['from_mut_slice result'])
p('J13','Unknown JSON fields are skipped exactly',
 'An unknown field or ignored element whose value is any well-formed JSON value is skipped in full without affecting the decoded known fields, whatever brackets, quotes or escapes its content holds. An unterminated or structurally malformed skipped value is an error.',
 ['inputs'],'every JSON value up to the stated length in the ignored position',
 'Tests skip a few simple literals; strings containing brackets, escaped quotes or nested containers need particular byte sequences.',
 [JD],[('deserialize_ignored_any',JD)],['known fields after from_mut_slice'])
p('J14','Self-describing JSON reading preserves value and type',
 'Reading any JSON value without a type hint yields the value written: null, booleans, strings, arrays and objects as such, integers that fit in 64 bits as exactly that integer, numbers with a fraction or exponent as floats. An integer beyond 64 bits is refused, never read as another value. The result, for the same text, equals what the type-directed reading of that value gives.',
 ['inputs','configurations'],'every JSON value text up to the stated length',
 'Dispatch is by first byte and number classification by scanning; tests try some literals.',
 [JD],[('deserialize_any',JD)],['value passed to the visitor'])
p('J15','JSON floats: finite pass through, non-finite is null',
 'A finite float is written as exactly the shortest decimal text produced by the number formatter and a NaN or infinity as null, never as an invalid token. Reading hands exactly the number token to the decimal parser, null reads as NaN, and f32 is used for f32, f64 for f64.',
 ['inputs'],'every float bit pattern; every number token up to the stated length',
 'Tests print a few values.',
 [JS,JD],[('serialize_f32/f64',JS),('deserialize_f32/f64',JD)],['to_writer output','from_mut_slice::<f32/f64>'])

p('M01','MessagePack integers are minimal and exact',
 'Every integer is written in a MessagePack integer encoding of the shortest length that holds its value, and reading it back as any integer type that can hold the value gives exactly that value. Reading any MessagePack integer encoding, minimal or not, into a type that cannot hold its value is an error, never a wrapped number.',
 ['inputs'],'every integer of every width, every integer encoding against every target type',
 'Boundaries between nine encodings times eight target types; tests sample some.',
 [MS,MD],[('width selection',MS+': serialize_i*/u*'),('TryFrom coercion',MD)],['to_writer output','from_slice result'])
p('M02','MessagePack length headers are minimal and truthful',
 'Every string, byte string, array and map is prefixed with the shortest header that can hold its length, the header states exactly the number of bytes or elements that follow, and a length that no header can express is refused with the matching length error instead of being truncated.',
 ['inputs'],'every length up to 2^64-1',
 'Tests use lengths near the first boundaries; a header at or beyond 65536 or 2^32 is impractical to test with data.',
 [MS],[('header selection',MS+': write_str/bytes/array/map header')],['bytes written before the content','content slice passed to the sink'])
p('M03','MessagePack floats keep every bit',
 'A float is written as its own IEEE width, big endian, and reading it back as the same type yields the identical bit pattern including NaN payloads, infinities and negative zero. Reading an integer, or nil, as a float yields the nearest float, or NaN; reading a float of the other width converts it.',
 ['inputs'],'every f32 and f64 bit pattern, every integer encoding',
 'Tests print a few values.',
 [MS,MD],[('to_bits/from_bits',MS),('deserialize_f32/f64',MD)],['to_writer output','from_slice result'])
p('M04','Values round-trip through MessagePack in all three flavours',
 'For every value of a serde type, the compact, index-map and named-map encodings each deserialize into an equal value of the same type, consuming exactly the bytes written, and each is a single well-formed MessagePack object laid out as documented for that flavour.',
 ['inputs','programs'],'every value of representative types within size bounds, three flavours',
 'Round-trips in the tests are of fixed example values.',
 [MS,MD],[('serializers',MS),('deserializer',MD)],['from_slice(to_writer*(v)) == (v, len)'])
p('M05','MessagePack containers hold the declared number of elements',
 'If a serialized sequence, tuple, map or struct provides fewer or more elements than its declared length, or its length is unknown, serialization fails with a length error and never silently produces a container whose header disagrees with its content. A struct with skipped fields is written with consistent content in map form; in array form it is refused unless only trailing fields are skipped, which leaves a consistent shorter array.',
 ['inputs','programs'],'every declared length and every actual number of elements, within bounds',
 'Tests cover one or two mismatches; bookkeeping is by a countdown that may wrap.',
 [MS],[('remaining-length countdown',MS+': SeqSerializer/MapSerializer/StructSerializer')],['result and output of to_writer*'])
p('M06','No MessagePack input can panic, read out of bounds or hang',
 'For any bytes and any supported target type, MessagePack deserialization terminates with a value or an error, never panics or reads outside the slice, and on success the reported consumed length is at most the input length. The split variant returns exactly the unread remainder.',
 ['inputs','configurations'],'every byte buffer up to the stated length; 64-bit and 32-bit address width; checked and unchecked builds',
 'Declared lengths up to 2^32 in adversarial input interact with pointer-sized arithmetic; tests use short well-formed input.',
 [MD],[('split_input/fetch bounds checks',MD),('eat_message',MD)],['outcome of from_slice, from_slice_split_tail'])
p('M07','Skipping a MessagePack value consumes exactly that value',
 'Skipping an unknown field or ignored element of any MessagePack type, nested in any way and including extension types, advances past exactly that one value, so the following data decodes as it would have alone. An incomplete or reserved-type value is an error.',
 ['inputs'],'every byte buffer up to the stated length in the skipped position',
 'Each of 36 type markers has its own length rule; tests sample a few.',
 [MD],[('eat_message',MD)],['fields after the skipped one','consumed length'])
p('M08','A truncated MessagePack encoding is rejected',
 'No strict prefix of a valid MessagePack encoding of a value deserializes as that type: every truncation point gives the unexpected-end error, never a value built from missing bytes.',
 ['inputs'],'every value of representative types, every strict prefix',
 'Tests cut a few encodings.',
 [MD],[('bounds checks',MD)],['from_slice result on prefixes'])
p('M09','Self-describing MessagePack reading preserves value and type',
 'Reading any MessagePack value without a type hint yields exactly the written nil, boolean, integer, float, string, binary, array or map with its elements in order; reserved and extension markers are errors.',
 ['inputs'],'every byte buffer up to the stated length',
 'Dispatch by marker; tests try some.',
 [MD],[('deserialize_any',MD)],['value passed to the visitor'])
p('M10','MessagePack struct layouts are interchangeable and complete',
 'A struct reads the same from an array of its fields, a map keyed by field index and a map keyed by field name, in any order and with mixed key kinds; missing required fields, extra array elements and wrong element counts are errors, and elements left over in a sequence or tuple are reported, never silently taken as the next value.',
 ['inputs'],'every field order, key kind and element count within bounds, arbitrary field values',
 'Tests fix one order per struct.',
 [MD],[('struct/map access, trailing elements check',MD)],['from_slice result'])
p('M11','Borrowed MessagePack data is the exact input slice',
 'Strings and byte slices read from MessagePack refer to exactly the payload bytes in the input; text that is not valid UTF-8 is rejected; a typed read of a mismatching marker is an error and not a reinterpretation.',
 ['inputs'],'every byte buffer up to the stated length',
 'Tests compare content for a few strings.',
 [MD],[('parse_str/parse_bytes',MD)],['address, length and content of the borrowed slice'])
p('M12','Display-formatted text is encoded like the equal string',
 'A value serialized through its Display form yields the same bytes as serializing the resulting string, in every build configuration, however the formatter splits its output; a formatting failure is reported as an error.',
 ['inputs','configurations'],'every text and every split into fragments within the bounds; with and without an allocator',
 'The allocator-free build formats twice and counts; the test configurations compare one literal.',
 [MS,JS],[('StringLenCounter/StringCollector',MS),('StringCollector',JS)],['to_writer output'])
json_out='\n'.join(json.dumps(x,ensure_ascii=False) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_out)
print(len(P))
