#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reading then writing reproduces the exact bytes",
  "Whenever the generic reader succeeds on an element, writing the value it returned - directly, after conversion to its owned form, or rebuilt level by level from the recursively read children - produces exactly the bytes that were consumed. This holds for every non-canonical choice the encoding allows: header width, definite or indefinite length, chunk boundaries, map order, tag width and float precision with its exact bit pattern.",
  ["inputs"], "every byte string that starts with a readable CBOR element",
  "The suite has two round trips of a constant and one integer; the claim is over every element shape, width and nesting.",
  ["src/reader.rs", "src/writer.rs", "src/types/structure.rs", "src/types/streamable.rs", "src/lowlevel/header.rs"],
  [("values keep their header representation (HeaderValue / StructureLength)", "src/lowlevel/header.rs, src/types/structure.rs"), ("writer emits the stored representation", "src/writer.rs write_value, write_value_stream, data")],
  ["Reader::data + Writer::data", "DataOwned encode", "array_build/map_build/tag_build from struct_len/tag_repr"])
p("C02", "Validation accepts exactly the well-formed CBOR elements",
  "The stand-alone validator accepts the bytes at its position exactly when they begin with one well-formed CBOR element in the sense of RFC 8949 (the only leniency being that the two-byte simple-value form is accepted for every payload byte), and then reports precisely that element's bytes and length. In particular an indefinite byte or text string may contain only definite chunks of its own kind, an indefinite map must contain complete pairs, and a break is only valid directly inside an indefinite item. Every slice it ever hands out, including after an earlier error, is one complete well-formed element.",
  ["inputs", "histories"], "every byte string, and every sequence of validation steps over it",
  "Eight example inputs, all accepted or simply truncated; no malformed nesting is tried.",
  ["src/validate.rs", "src/state.rs", "src/lowlevel/lead.rs", "src/context.rs"],
  [("push-down state of open containers", "src/state.rs State"), ("lead byte classification", "src/lowlevel/lead.rs Lead::from_byte"), ("validation loop", "src/validate.rs Validator::next")],
  ["Validator::next", "Validator::remaining_bytes"],
  [("State.ctx", "stack of open containers", "src/state.rs")])
p("C03", "The reader hands out exactly one well-formed element at a time",
  "Reading the next element generically succeeds exactly when the bytes at the cursor begin with one well-formed element (for a text, additionally every chunk being valid UTF-8) and consumes exactly that element's bytes. Every element handed out inside an array, a map, a tag or as an exact slice is itself exactly one well-formed element, and together with the headers they tile the consumed bytes. The reader and the stand-alone validator therefore never disagree on what an element is.",
  ["inputs"], "every byte string",
  "The tests read four or five valid inputs; acceptance of malformed nested content is never examined.",
  ["src/reader.rs", "src/state.rs", "src/context.rs", "src/prim.rs"],
  [("neutral element skipper driven by the container state", "src/reader.rs cbor_slice_neutral"), ("container readers", "src/reader.rs array, map, tag"), ("slice hand-out", "src/context.rs slice_from")],
  ["Reader::data", "Reader::array/map/tag elements", "Reader::exact_decodable_slice"])
p("C04", "No input makes reading, validating or decoding panic or hang",
  "For every byte string, the empty one included, every reading, validating and decoding entry point terminates and either succeeds or returns an error; it never panics, overflows arithmetic or the stack, or loops forever. This covers absurd declared lengths (up to 2^64-1) at any position, arbitrarily deep nesting, and repeated calls after an error.",
  ["inputs", "histories"], "every byte string, every entry point, every continuation after an error",
  "Tests use about ten hand-picked inputs; overflow needs extreme lengths at specific positions.",
  ["src/reader.rs", "src/validate.rs", "src/context.rs", "src/state.rs", "src/decode.rs", "src/tagged.rs", "src/prim.rs", "src/lib.rs"],
  [("bounds check before slicing", "src/context.rs peek/consume"), ("heap-allocated, iterative nesting state", "src/state.rs"), ("internal-error panics that must be unreachable", "src/lowlevel/header.rs resolve_value, src/state.rs advance")],
  ["all pub fns of Reader, Validator, decode_from_bytes, Decode impls"])
p("C05", "Memory used for reading is bounded by the bytes really present",
  "The heap memory allocated while reading, validating or decoding an input is bounded by a fixed multiple of the number of bytes actually present plus a small constant. Declared lengths and counts that exceed the available bytes never cause proportionally large allocations.",
  ["inputs"], "every byte string, in particular every header announcing more than is present",
  "No test measures allocation or uses a lying length.",
  ["src/reader.rs", "src/decode.rs", "src/types/structure.rs", "src/types/streamable.rs"],
  [("containers grow with parsed elements, not with the declared count", "src/reader.rs array/map/bytes/text"), ("capacity taken from the number of parsed elements", "src/decode.rs decode_vec, src/types/structure.rs to_vec")],
  ["global allocator accounting around each call"])
p("C06", "A typed read yields the right value or fails without moving",
  "Each typed read (positive, negative, scalar, byte, float, constant, null, undefined, bool, bytes, text, array, map, tag) succeeds only if the next element has a type it stands for, and then returns that element's value and consumes exactly that element. If the next element is of another type, or its header is missing, truncated or reserved, the read returns an error and the cursor does not move, so a following correct read still works. Peeking at the type never moves the cursor and names the type whose read applies.",
  ["inputs", "histories"], "every byte string, every typed read, every order of failing and succeeding reads",
  "One test tries one wrong type (negative on positive); 14 reads x all lead bytes x following reads are not covered.",
  ["src/reader.rs", "src/types/mod.rs", "src/lowlevel/lead.rs"],
  [("header is decoded before the cursor is advanced", "src/reader.rs header/matches_type"), ("type naming", "src/types/mod.rs Type::from_lead, src/lowlevel/header.rs to_type")],
  ["Reader::{positive..tag, peek_type}, consumed_bytes"])
p("C07", "Truncated input is reported as missing data, never misread",
  "If the available bytes are a proper prefix of a readable element, validating or generically reading them fails with the missing-data error - never with success or another error - and its expected count exceeds its available count by no more than the number of bytes really missing. Bytes that follow a complete element never change the result of reading it.",
  ["inputs", "fault_sequences"], "every cut point of every element and every continuation",
  "Three truncations of one-header inputs are tested.",
  ["src/context.rs", "src/reader.rs", "src/validate.rs"],
  [("missing-byte accounting", "src/context.rs CborDataReader::peek"), ("lookahead of header bytes", "src/reader.rs resolve_indirect, src/validate.rs resolve_indirect")],
  ["ReaderError::DataMissing", "ValidateError::DataMissing"])
p("C08", "Integers, tags and simple values keep their value and shortest form",
  "Every 64-bit unsigned value written as positive, negative or tag number, and every 8-bit simple value, is written in the shortest form the format (as this library reads it) offers and reads back to the same value; reading any wider form yields the same number together with the width used. A value reports itself canonical exactly when its form is the shortest one that can be written and read back. Conversion to a signed 64-bit integer is exact when representable and refused otherwise.",
  ["inputs"], "all integer values, all widths",
  "Two integer values are tested; boundaries between widths, i64 limits and most simple values are not.",
  ["src/types/scalar.rs", "src/lowlevel/header.rs", "src/writer.rs", "src/types/structure.rs"],
  [("width selection", "src/lowlevel/header.rs canonical/is_canonical"), ("big-endian emission", "src/writer.rs write_value"), ("signed conversion", "src/types/scalar.rs to_i64")],
  ["Positive/Negative/Scalar/Byte/TagValue constructors and accessors"])
p("C09", "Float conversions give the exact IEEE 754 value",
  "Converting a half, single or double precision CBOR float to f64 yields exactly the number its bits denote (sign of zero, subnormals and infinities included, NaN to NaN), and converting to f32 yields that number when the stored precision is half or single and the correctly rounded one when it is double. Reading and writing never alter the stored bits.",
  ["inputs"], "all 2^16 halves, all 2^32 singles, boundary doubles",
  "No test touches floats at all.",
  ["src/types/float.rs", "src/reader.rs", "src/writer.rs"],
  [("half to single conversion", "src/types/float.rs ieee754_u16_to_u32"), ("bit-pattern storage", "src/types/float.rs Float")],
  ["Float::to_f32/to_f64", "Reader::float", "Writer::float"])
p("C10", "Byte and text strings deliver exactly their content",
  "For every definite or chunked byte or text string that reads successfully, the reported length, the concatenated content and the individual chunks (with their encoded lengths) are exactly the payload bytes in order, whatever those bytes are. A text read succeeds only if each chunk is by itself valid UTF-8, and otherwise fails. Strings built from memory carry the shortest definite length header and read back to the same content.",
  ["inputs"], "every payload, chunking and length-header width",
  "The tests never look at string content read back; no chunked string is read through the reader.",
  ["src/types/streamable.rs", "src/reader.rs", "src/writer.rs"],
  [("chunk loop", "src/reader.rs bytes/text/text_data"), ("concatenation and chunk accessors", "src/types/streamable.rs")],
  ["Bytes::{len,to_vec}", "Text::{to_string,to_str_chunks}", "BytesData/TextData accessors", "from_slice/from_str/from_vec/from_string"])
p("C11", "Arrays, maps and tags expose exactly their elements in order",
  "For every array, map or tagged element that reads successfully, in borrowed or owned form, its length, indexing, iteration, key and value iteration, conversion to a vector and recorded length encoding all present the same sequence: exactly the encoded elements, in encoded order, none dropped, repeated or merged. A tag exposes exactly its number and its one content element, and reading its content as one value fails if the value leaves bytes over.",
  ["inputs"], "every container content, size, length encoding and nesting",
  "Two containers are inspected by index in the tests; iteration, keys/values, to_vec and owned forms are untested.",
  ["src/types/structure.rs", "src/reader.rs"],
  [("element collection", "src/reader.rs array/map/tag"), ("accessors", "src/types/structure.rs Array, Map, Tag and Owned variants")],
  ["Array/ArrayOwned/Map/MapOwned/Tag/TagOwned accessors"])
p("C12", "The writer emits exactly the requested encoding",
  "Any sequence of writer calls appends, to whatever bytes the writer was started with, exactly the concatenation of the encodings the calls ask for: the given header width, definite or indefinite length, chunks in order, the break closing each indefinite item and only those. If the definite counts match what the closures write, the output is well-formed and reads back as the same values; array builders produce the count of what was appended.",
  ["histories", "inputs"], "every sequence and nesting of writer calls",
  "Two call sequences of one and two calls are tested; no container is ever written in a test that checks bytes.",
  ["src/writer.rs", "src/types/structure.rs", "src/encode.rs"],
  [("header emission", "src/writer.rs write_value/write_value_stream/write_structure_length"), ("closure builders", "src/writer.rs array_build/map_build/tag_build"), ("array builder", "src/types/structure.rs ArrayBuilder")],
  ["Writer::finalize"], [("Writer.data", "bytes written so far", "src/writer.rs")])
p("C13", "Native values round-trip, and decoding never truncates or mistypes",
  "For booleans, unsigned integers, strings, byte vectors, fixed-size byte arrays, scalars, generic values and lists of these, decoding the encoding of a value gives back that value, and the encoding is the shortest definite one. Decoding accepts every other width or chunking of the same value, and answers with an error - never a wrapped, truncated or padded value - for an out-of-range number, a wrong byte count, a wrong type, an undecodable list element or trailing bytes after the value.",
  ["inputs"], "all values of the native types, all wire elements offered to each decoder",
  "One u64 and one bool are decoded in the tests; range limits, lengths and trailing data are untested.",
  ["src/decode.rs", "src/encode.rs", "src/lib.rs"],
  [("range assertion", "src/decode.rs assert_range"), ("length check", "src/decode.rs [u8; N]"), ("trailing data check", "src/lib.rs decode_from_bytes, src/reader.rs decode_one, src/prim.rs decode"), ("list helpers", "src/decode.rs decode_vec, src/encode.rs encode_vec")],
  ["decode_from_bytes", "encode_to_bytes", "Reader::decode/decode_one", "CborSlice::decode"])
p("C14", "Typed exact data holds its verbatim bytes and always decodes",
  "Data recorded as the exact bytes of a typed value can only be obtained from bytes that decode as that type with nothing left over, or by encoding a value of that type. It keeps exactly those bytes through cloning, borrowing, owning, dropping the type and re-encoding (on its own or inside other data), and retrieving the typed value always succeeds and equals decoding the bytes directly.",
  ["inputs", "histories"], "every byte string offered, every type, every chain of conversions",
  "No test uses this feature, which is the crate's reason to exist (hash/sign the received bytes).",
  ["src/prim.rs", "src/reader.rs", "src/decode.rs", "src/encode.rs"],
  [("validate then transmute", "src/prim.rs validate_as"), ("exact element extraction", "src/reader.rs exact_decodable_slice/exact_decodable_data"), ("verbatim re-encode", "src/encode.rs impls for CborDataOf/CborSliceOf/CborData/CborSlice")],
  ["CborSlice/CborData/CborSliceOf/CborDataOf API"])
p("C15", "Standard tagged types accept exactly their form and re-encode exactly",
  "Date-time text (tag 0), positive and negative bignums (2, 3), embedded CBOR (24) and rationals (30) decode exactly when the tag number is the right one and the content has the required shape: a valid text; a byte string; or, for a rational, a two-item array whose numerator is an integer or bignum of either sign and whose denominator is a positive integer or positive bignum. Encoding the decoded value reproduces the original bytes and the accessors return the content; any other content is an error.",
  ["inputs"], "every element offered to each tagged type",
  "There is no test of the tagged module.",
  ["src/tagged.rs"],
  [("tag matching", "src/tagged.rs matches_tag"), ("rational numerator/denominator alternatives", "src/tagged.rs RationalNumber::read"), ("length check at encoding", "src/tagged.rs RationalNumber::write")],
  ["tagged::*::{read, decode, encode, accessors}"])
p("C16", "Derived records follow the documented layout and round-trip",
  "A record with derived encoding is written in its declared layout: fields in order (flat), one definite array, an array leaving out an absent optional last field, or a map with one entry per present field in declaration order under consecutive integer keys that start at the configured start and skip the configured keys; a configured tag wraps the whole. Decoding that encoding gives back an equal value, and so does decoding any other encoding of the same content (wider headers, indefinite lengths, map entries in another order).",
  ["programs", "configurations", "inputs"], "every supported declaration (layout, field count and types, tag, start, skips, mandatory/optional) and every value",
  "The derive macro has no test; the examples crate only checks that two declarations compile.",
  ["cbored-derive/src/product.rs", "cbored-derive/src/attr.rs", "cbored-derive/src/common.rs", "cbored-derive/src/lib.rs"],
  [("encoder generation", "cbored-derive/src/product.rs derive_struct_se"), ("decoder generation", "cbored-derive/src/product.rs derive_struct_de"), ("key numbering with start and skips, once per direction", "cbored-derive/src/product.rs rel_index loops")],
  ["generated Encode/Decode of a family of declarations"])
p("C17", "Derived records reject everything that is not their layout",
  "Decoding a derived record returns an error - it never panics, ignores data or invents a field - when the element has another type, a wrong, missing or superfluous tag, a wrong number of items, a missing mandatory key, a duplicated key, an unknown key of any magnitude, a non-integer key, or a field whose content does not decode completely as the field's type.",
  ["programs", "configurations", "inputs"], "every supported declaration and every wire element offered to it",
  "No test decodes anything into a derived type.",
  ["cbored-derive/src/product.rs"],
  [("item count checks", "cbored-derive/src/product.rs prelude_sty_de"), ("duplicate/unknown/missing key handling", "cbored-derive/src/product.rs DeStructure::MapInt"), ("tag check", "cbored-derive/src/product.rs tag_wrapper")],
  ["generated Decode of a family of declarations"])
p("C18", "Derived enums use the declared numbering and layout and round-trip",
  "Variants of a derived enum are numbered consecutively in declaration order from the configured start, leaving out the configured skipped numbers; a variant is written as that integer (integer layout), as a definite array of that integer and its fields with list fields as nested arrays (tagged layout), or as its bare content, null for the empty variant (layout by CBOR type). Decoding the encoding, or any other encoding of the same content, gives back the same variant and fields; different variants never share an encoding.",
  ["programs", "configurations", "inputs"], "every supported enum declaration and every value",
  "No test encodes a derived enum; one example declaration is only compiled.",
  ["cbored-derive/src/sum.rs", "cbored-derive/src/attr.rs"],
  [("numbering", "cbored-derive/src/sum.rs enumerate_variant_indices"), ("encoder generation", "cbored-derive/src/sum.rs derive_enum_se"), ("decoder generation", "cbored-derive/src/sum.rs derive_enum_de")],
  ["generated Encode/Decode of a family of declarations"])
p("C19", "Derived enums reject everything that is not one of their variants",
  "Decoding a derived enum returns an error - never a panic and never another variant - for a number that is not assigned (skipped ones included), a number of another type, an empty array, an array with too few or too many items for its variant, a field that does not decode completely, or, in the layout by CBOR type, an element of a type no variant declares.",
  ["programs", "configurations", "inputs"], "every supported enum declaration and every wire element offered to it",
  "No test decodes anything into a derived enum.",
  ["cbored-derive/src/sum.rs"],
  [("variant match", "cbored-derive/src/sum.rs derive_enum_de"), ("item count check", "cbored-derive/src/sum.rs de_array_lencheck")],
  ["generated Decode of a family of declarations"])
p("C20", "The public event state machine tracks well-formedness exactly",
  "Fed with element events (simple item, definite or indefinite bytes and text, array, map, break, tag), the public state machine accepts an event exactly when the events so far are a prefix of the events of some sequence of well-formed elements, and reports itself acceptable exactly when no element is left open.",
  ["histories"], "every sequence of events",
  "Nine hand-written accepting sequences; rejection and interleavings of nested kinds are not exercised.",
  ["src/state.rs"],
  [("container stack with remaining counts", "src/state.rs StructTy, advance, reduce, check_reduce"), ("break handling", "src/state.rs brk")],
  ["State::{simple,bytes,text,array,map,brk,tag,acceptable}"],
  [("State.ctx", "open containers and what each still expects", "src/state.rs")])
p("C21", "Owned and borrowed forms are interchangeable",
  "Turning any value that was read into its owned form and back is the identity, at every level (generic value, byte and text strings, arrays, maps, tags, element slices): both forms compare equal after conversion, encode to the same bytes and answer every accessor identically, and the owned form stays valid after the input buffer is gone.",
  ["inputs"], "every readable element",
  "No test uses an owned form.",
  ["src/types/mod.rs", "src/types/streamable.rs", "src/types/structure.rs", "src/prim.rs"],
  [("owned()/borrow() pairs", "src/types/*.rs"), ("ToOwned/Borrow of element slices", "src/prim.rs")],
  ["owned, borrow, to_owned, accessors of both forms"])
p("C22", "Cursor accounting stays exact over any history of reads",
  "Over any sequence of successful and failing reads, consumed plus remaining bytes equal the input length, the position never moves backwards or past the end, and each success moves it by exactly the bytes of the element read. A stream of elements is therefore read element by element with nothing skipped, finished is reported exactly when no byte remains, and the not-finished error carries the true position, remaining count and next byte.",
  ["histories", "inputs"], "every sequence of reader calls over every input",
  "Tests make at most three reads in a row on one input.",
  ["src/reader.rs", "src/context.rs", "src/validate.rs"],
  [("single cursor index", "src/context.rs index/advance/consume"), ("finish checks", "src/reader.rs expect_finished, decode_one")],
  ["consumed_bytes, remaining_bytes, is_finished, expect_finished, decode_one"],
  [("CborDataReader.index", "cursor", "src/context.rs")])
p("C23", "Decode errors name the place where decoding failed",
  "When decoding a list (`decode_vec`) fails at an element, the error's context names the index of the first element that does not decode, and when decoding a derived record with named fields fails in a field, it names that field; nested contexts read from outermost to innermost in the path form and from innermost to outermost in the list form; a list field nested in a derived enum variant adds no index of its own. The underlying cause is preserved unchanged.",
  ["inputs", "programs"], "every position of the faulty element and every nesting of contexts",
  "No test inspects error contexts.",
  ["src/decode.rs", "cbored-derive/src/product.rs"],
  [("context stack", "src/decode.rs DecodeError push/push_str/push_string, context_as_path"), ("list decode", "src/decode.rs decode_vec")],
  ["DecodeError::{error, context, context_as_path}, Display"])
p("C24", "Values compare equal exactly when their encodings are identical",
  "Two values read from CBOR compare equal if and only if their encodings are byte for byte the same: the same number, string or container in a different width, chunking, precision or length style is a different value, and equality looks into the bytes of nested elements. Owned values follow the same rule.",
  ["inputs"], "every pair of readable elements",
  "No test compares two values that differ only in representation.",
  ["src/types/mod.rs", "src/types/scalar.rs", "src/types/streamable.rs", "src/types/structure.rs", "src/types/float.rs", "src/prim.rs"],
  [("structural equality over stored representation", "derive(PartialEq) on value types")],
  ["PartialEq of Data and DataOwned"])
p("C25", "Safe use of the library never causes undefined behaviour",
  "No sequence of calls through the library's safe interface - reading, slicing, typing and untyping slices, owning, borrowing, re-encoding - causes undefined behaviour: no out-of-bounds or dangling access, no invalid string, no reference aliasing or layout violation.",
  ["inputs", "histories"], "every input and every sequence of safe calls",
  "Tests cannot see undefined behaviour, and none runs the casts between slice wrappers.",
  ["src/prim.rs", "src/context.rs", "src/reader.rs"],
  [("unchecked casts between byte slices and wrapper types", "src/prim.rs, src/context.rs slice_from")],
  ["every public call, executed under an interpreter that detects undefined behaviour"])
p("C26", "Refusals report truthfully what was asked for and what is really there",
  "When a read or decoding is refused, what the returned error says is true of the input: the kinds asked for and the kind found (also inside a chunked string), the tag numbers asked for and found, the item count or byte length asked for and found, the range and the number that does not fit it, the place and reason of invalid UTF-8, the position, number and first of the bytes left over. A derived decoder that refuses the layout itself - tag, item count, unknown or repeated key, missing field, unknown variant or kind - names that number, field or kind.",
  ["inputs"], "every refused input and every typed read and decoding",
  "Tests check that a read fails, hardly ever what the error says.",
  ["src/reader.rs", "src/decode.rs", "src/tagged.rs", "src/context.rs", "cbored-derive/src/product.rs", "cbored-derive/src/sum.rs"],
  [("error values", "src/reader.rs ReaderError, src/decode.rs DecodeErrorKind"), ("type checks", "src/reader.rs expect_type"), ("tag checks", "src/tagged.rs matches_tag")],
  ["Reader::{positive .. tag, decode, decode_one}, decode_from_bytes, derived decoders: the returned errors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
