#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run to regenerate).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "ABI-typed JSON is encoded to exactly the prescribed binary",
  "For every type an ABI can express (base types, structs with inherited fields first, variants, optionals, arrays, type aliases, binary extensions) and every valid JSON value of it, conversion to binary yields exactly the bytes the wire format prescribes: fields in declaration order, one presence byte for an optional, a minimal base-128 element count before array elements and a minimal base-128 case index before a variant's value, aliases transparent. Nothing is dropped, duplicated, reordered or added, whatever the nesting and whatever the sizes involved.",
  ["inputs", "configurations"], "all ABIs over a bounded type grammar, all values over a bounded value domain, collection sizes across every varuint width boundary",
  "a test fixes one ABI and a few values; errors hide in combinations (second nested array's count position, inherited field after an alias, count crossing 127) that no sampled list covers",
  ["src/abieos.hpp", "src/abi.cpp", "include/eosio/to_bin.hpp"],
  [("streaming encoder", "src/abieos.hpp: json_to_bin(json_to_bin_state) pseudo_* overloads, size_insertions"), ("type resolution", "src/abi.cpp: resolve/get_type"), ("C entry", "src/abieos.cpp: abieos_json_to_bin")],
  [("size_insertions", "positions in the output where array counts are spliced in afterwards", "src/abieos.hpp: json_to_bin_state"), ("stack position", "index of current field/element", "json_to_bin_stack_entry")],
  ["abieos_json_to_bin / abieos_get_bin_data", "abi_type::json_to_bin"])

p("C02", "Binary decodes to the canonical JSON of its value and round-trips",
  "Decoding the encoding of any value of any ABI-expressible type yields one syntactically valid JSON text that denotes exactly that value in canonical form (struct members in order under their own names, absent optionals as null, variants tagged with the case name). Encoding that JSON again, in either conversion mode, gives back the identical bytes (provided the type's member and case names are distinct, without which JSON cannot name them).",
  ["inputs", "configurations"], "all ABIs and values of the bounded grammar of C01",
  "round-trip identity is a statement about every type/value combination; sampled values do not exercise separator, nesting and naming logic in combination",
  ["src/abieos.hpp", "src/abi.cpp", "include/eosio/to_json.hpp"],
  [("decoder", "src/abieos.hpp: bin_to_json pseudo_* overloads"), ("C entry", "src/abieos.cpp: abieos_bin_to_json, abieos_hex_to_json")],
  [("bin_to_json_stack_entry", "position and array_size of every open container", "src/abieos.hpp")],
  ["abieos_bin_to_json", "abi_type::bin_to_json"])

p("C03", "The binary decoder accepts exactly complete well-formed input",
  "For every byte string and every type, decoding either returns the JSON of a value whose encoding is that byte string (up to redundant leading zero groups of variable-length integers), or fails with an error: truncated input, trailing bytes, an out-of-range variant index, an over-long variable-length integer or a presence or boolean byte other than 0 and 1 are all rejected. It never reads outside the given bytes, and a declared length or count that exceeds the data present is rejected without allocating memory in proportion to it.",
  ["inputs"], "all byte strings up to a length bound over a small alphabet, plus every truncation, extension and single-byte change of valid encodings, for a family of types",
  "the input space is all byte strings, most of them hostile; tests feed a handful of well-formed ones",
  ["include/eosio/from_bin.hpp", "include/eosio/stream.hpp", "src/abieos.hpp", "src/abieos.cpp"],
  [("bounds checks", "include/eosio/stream.hpp: input_stream::read/skip/read_reuse_storage"), ("length prefixes", "include/eosio/from_bin.hpp: varuint32_from_bin, from_bin(vector/string)"), ("trailing data", "src/abieos.cpp: abieos_bin_to_json")],
  None, ["abieos_bin_to_json", "abieos_hex_to_json", "abieos_set_abi_bin", "eosio::from_bin"])

p("C04", "In-order and reorderable JSON conversion agree",
  "Whenever the in-order conversion accepts a JSON text for a type, the reorderable conversion accepts it too and produces identical bytes. The reorderable conversion additionally accepts every permutation of object members at every nesting level and produces the same bytes for all of them, while the in-order conversion accepts only declaration order. Members the type does not have never change the result of the reorderable conversion.",
  ["inputs", "configurations"], "all member permutations, at every level, of all values of a bounded family of struct types",
  "two independent conversion engines have to agree on every input; tests compare them on a few fixed strings",
  ["src/abieos.hpp", "src/abi.cpp"],
  [("in-order engine", "src/abieos.hpp: json_to_bin(json_to_bin_state)"), ("reorderable engine", "src/abieos.hpp: json_to_jvalue, json_to_bin(jvalue_to_bin_state)")],
  [("jvalue tree", "parsed JSON document used by the reorderable engine", "src/abieos.hpp: jvalue, json_to_jvalue_stack_entry")],
  ["abieos_json_to_bin", "abieos_json_to_bin_reorderable"])

p("C05", "Malformed or mistyped JSON is always rejected",
  "A text is converted to binary only if it is one complete, grammatically valid JSON document whose shape matches the type (a number may be spelled as a JSON number or string): wrong value kinds, missing required members, unknown or repeated members (in-order mode), wrong variant arity or unknown variant case, trailing or missing punctuation, extra data after the document and truncation at any point are all rejected with an error. A rejected conversion never leaves bytes that could be mistaken for a result.",
  ["inputs"], "all token sequences up to a length bound over a JSON token alphabet, every truncation and single-token edit of valid documents, for a family of types, in both modes",
  "rejection must hold for every wrong text; tests try a few wrong texts per type",
  ["src/abieos.hpp", "include/eosio/from_json.hpp", "src/abieos.cpp"],
  [("token stream", "include/eosio/from_json.hpp: json_token_stream"), ("shape checks", "src/abieos.hpp: json_to_bin pseudo_* overloads"), ("end check", "src/abieos.hpp: state.complete()")],
  None, ["abieos_json_to_bin", "abieos_json_to_bin_reorderable", "abieos_get_bin_size"])

p("C06", "Binary extensions may be absent only as an omitted tail",
  "Extension members at the end of a struct may be omitted in JSON or in binary exactly when they form the tail of the whole value: the outermost struct, or one reached only through last members, optionals and variant cases (not array elements). Omitting such a tail produces and accepts exactly the encoding without those bytes and decodes to JSON without those members; supplying a member after an omitted one, omitting a required member after an omitted extension, or omitting an extension anywhere else is rejected.",
  ["inputs", "configurations"], "all placements of extension members in nested structs up to a bound and all subsets of omitted members, in JSON and binary",
  "the rule couples position, nesting and a sticky flag; a test covers one placement at a time",
  ["src/abieos.hpp"],
  [("extension rules", "src/abieos.hpp: allow_extensions / skipped_extension in json_to_bin and bin_to_json"), ("type rule", "src/abi.cpp: '$' handling in get_type")],
  [("skipped_extension", "an extension was omitted, nothing may follow", "src/abieos.hpp: *_state")],
  ["abieos_json_to_bin", "abieos_json_to_bin_reorderable", "abieos_bin_to_json"])

p("C07", "Nesting is bounded: deep input is converted or refused, never fatal",
  "For any nesting depth of containers in a type's value, all conversions succeed with correct results up to 127 levels and refuse more than 128 levels with an error, in JSON and in binary, for every way of nesting structs, arrays, variants and optionals. Type names with arbitrarily many suffixes, and alias or inheritance chains of any length including cycles, are resolved or refused with an error; nothing exhausts the stack or fails to terminate.",
  ["inputs", "configurations"], "every depth from 0 to beyond the limits for every nesting pattern up to a period bound",
  "off-by-one and missing limits only show at particular depths of particular nesting patterns",
  ["src/abieos.hpp", "src/abi.cpp"],
  [("value limits", "src/abieos.hpp: max_stack_size checks in receive_event, json_to_bin, bin_to_json"), ("type limits", "src/abi.cpp: depth < 32 checks")],
  [("stack", "open containers of the conversion in progress", "src/abieos.hpp: *_state::stack")],
  ["abieos_json_to_bin", "abieos_json_to_bin_reorderable", "abieos_bin_to_json", "abieos_set_abi"])

p("C08", "An ABI is accepted exactly when it is well-formed",
  "Loading succeeds exactly for ABIs with a supported version whose named types are non-empty and defined once, whose every reference (alias target, base, member, variant case) resolves, whose struct bases are structs, whose aliases, bases and type suffixes contain no cycle, whose optionals and arrays are not applied to optionals, arrays or extensions, and whose aliases are not extensions. The decision does not depend on the order of definitions or on the names chosen (chains of more than 25 references or suffixes may be refused); references made later by callers obey the same rules.",
  ["configurations", "inputs"], "all ABIs with up to three definitions over a small name and type-expression alphabet, in all definition orders and under renaming",
  "well-formedness is a global condition over the graph of definitions; tests cover one malformed ABI per rule",
  ["src/abi.cpp", "src/abieos.cpp", "src/abieos.hpp", "include/eosio/abi.hpp"],
  [("loader", "src/abi.cpp: convert(abi_def, abi), get_type, resolve, fill"), ("version check", "src/abieos.hpp: check_abi_version")],
  [("abi_types", "name to resolved type", "include/eosio/abi.hpp: abi")],
  ["abieos_set_abi", "abieos_set_abi_bin", "abieos_json_to_bin"])

p("C09", "JSON, binary and hex forms of an ABI are interchangeable",
  "An ABI definition encoded to binary and decoded again is unchanged in every part (types, structs, actions, tables, clauses, error messages, extensions, variants), with the documented field order, and the variants section may be absent at the end. Loading the same ABI from JSON, from binary or from hex is accepted or refused alike and behaves identically for every later query and conversion; deriving a definition back from a loaded ABI yields one whose types behave identically.",
  ["inputs", "configurations"], "all ABI definitions of a bounded grammar with every section populated in all combinations",
  "equivalence of three input forms must hold for every definition",
  ["include/eosio/abi.hpp", "src/abi.cpp", "src/abieos.cpp"],
  [("abi_def codec", "include/eosio/abi.hpp: abi_def, might_not_exist"), ("loaders", "src/abieos.cpp: abieos_set_abi, abieos_set_abi_bin, abieos_set_abi_hex"), ("reverse conversion", "src/abi.cpp: convert(abi, abi_def), to_abi_def")],
  None, ["abieos_set_abi*", "abieos_get_type_for_action", "abieos_get_type_for_table", "eosio::convert"])

p("C10", "The C interface behaves as a map of loaded ABIs plus last results",
  "For every sequence of calls, each call's result depends only on the most recent ABI successfully loaded for the named contract and on its arguments: queries and conversions for contracts, actions, tables or types not present fail with an error (naming the missing contract, action or table), failing calls change no loaded ABI, and null pointers are treated as empty text or reported, never dereferenced. The binary result is that of the latest successful conversion to binary (a failed conversion never leaves stale or partial bytes of its own) with size, data and hex views agreeing, and returned text stays valid and unchanged until the next call that returns text (type names: while the contract keeps its ABI).",
  ["histories"], "all call sequences up to a depth bound over an alphabet of calls on two contexts and two contracts, deduplicated by model state",
  "state carried between calls (stale results, overwritten ABIs, cached types) only shows on particular sequences",
  ["src/abieos.cpp", "src/abieos.h", "include/eosio/abieos.h"],
  [("context", "src/abieos.cpp: abieos_context_s"), ("error discipline", "src/abieos.cpp: handle_exceptions, set_error")],
  [("contracts", "loaded ABIs by contract", "abieos_context_s::contracts"), ("last_error/result_str/result_bin", "outputs of the last call", "abieos_context_s")],
  ["every abieos_* function"])

p("C11", "Running out of memory at any point is reported and harmless",
  "If any single memory allocation made during a call of the C interface fails, the call returns its failure value (or completes correctly); no exception or abort escapes, nothing leaks or is corrupted. Afterwards the context still answers every query and conversion exactly as before the call, and repeating the call succeeds.",
  ["fault_sequences", "histories"], "every allocation index of every call in an alphabet of calls, from several context states",
  "needs a fault at each individual allocation, which no test injects",
  ["src/abieos.cpp", "src/abi.cpp", "src/abieos.hpp"],
  [("exception barrier", "src/abieos.cpp: handle_exceptions"), ("insert after build", "src/abieos.cpp: abieos_set_abi*")],
  [("contracts", "loaded ABIs must survive failed calls", "abieos_context_s::contracts")],
  ["every abieos_* function under injected allocation failure"])

p("C12", "Different contexts can be used from different threads",
  "Calls on distinct contexts, and conversions of distinct values through the native interface, may interleave arbitrarily: every call's results are those it would have had running alone. No hidden state is shared between them.",
  ["schedules"], "all interleavings with a bounded number of preemptions of two threads running one call each, preemption possible at every basic block of the library",
  "depends on the thread schedule; single-threaded tests cannot observe it",
  ["src/abieos.cpp", "src/abieos.hpp", "src/abi.cpp", "src/crypto.cpp", "include/eosio/fpconv.c"],
  [("no globals", "all state in abieos_context_s or on the stack; tables are constants")],
  None, ["abieos_* on two contexts"])

p("C13", "Integers convert exactly or are refused",
  "Every integer type from 8 to 128 bits, signed and unsigned, accepts exactly the decimal texts (as JSON number or string) whose value it can represent and encodes them as little-endian two's complement; anything else, including out-of-range values by any margin, empty text and non-digits, is refused. Printing a value gives its canonical decimal text (quoted for types wider than 32 bits) that converts back to the same value; booleans accept only true and false.",
  ["inputs"], "all values of 8- and 16-bit types, all values within a window of every power-of-two and power-of-ten boundary for wider types, all short texts over a digit/sign alphabet",
  "overflow detection errors occur at isolated values near the limits of one width",
  ["include/eosio/from_json.hpp", "include/eosio/to_json.hpp", "src/abieos.hpp"],
  [("parser", "include/eosio/from_json.hpp: from_json_int"), ("printer", "include/eosio/to_json.hpp: int_to_json")],
  None, ["convert_to_json, from_json", "abieos_json_to_bin for int types"])

p("C14", "Variable-length integers are exact, minimal and bounded",
  "Every 32-bit value encodes to the unique shortest base-128 form (zig-zag mapped for signed values) and decodes back to itself; pushing a value, writing it to any kind of output and computing its size agree. Decoding consumes exactly the bytes up to the first without continuation bit, at most five for 32-bit (ten for 64-bit) values, and refuses truncated or longer input.",
  ["inputs"], "all 2^32 values for encode/decode; all byte strings of up to six bytes over the boundary alphabet for decode",
  "width boundaries and sign mapping are wrong at isolated values out of four billion",
  ["include/eosio/to_bin.hpp", "include/eosio/from_bin.hpp", "include/eosio/varint.hpp"],
  [("encode", "include/eosio/to_bin.hpp: varuint32_to_bin, push_varuint32"), ("decode", "include/eosio/from_bin.hpp: varuint32_from_bin, varuint64_from_bin, varint32_from_bin"), ("types", "include/eosio/varint.hpp")],
  None, ["convert_to_bin, from_bin for varuint32/varint32"])

p("C15", "Floating-point numbers survive conversion to text and back",
  "Every finite 32- and 64-bit floating-point value, including subnormals and negative zero, prints as a valid JSON number that converts back to the identical bits, and infinities and not-a-number print as the quoted strings Infinity, -Infinity and NaN which convert back to such a value. Text that is not entirely a number is refused, as is a number too large to represent.",
  ["inputs"], "all 2^32 single-precision values (thorough), every exponent with all boundary mantissas and mantissa windows for both precisions (quick)",
  "digit generation and rounding go wrong at isolated values among 2^64",
  ["include/eosio/fpconv.c", "include/eosio/to_json.hpp", "include/eosio/from_json.hpp"],
  [("printer", "include/eosio/fpconv.c: fpconv_dtoa; to_json.hpp: fp_to_json"), ("parser", "include/eosio/from_json.hpp: from_json(float/double)")],
  None, ["convert_to_json, from_json for float/double"])

p("C16", "JSON text carries every string exactly",
  "Every byte string prints as a valid JSON string literal: valid UTF-8 is preserved, quotes, backslashes and control characters are escaped, and each byte that is not part of valid UTF-8 becomes a question mark. Parsing a literal yields exactly the characters it denotes, including every escape and surrogate pair, so every valid UTF-8 string (embedded zeros included) round-trips; malformed escapes and malformed UTF-8 in input are refused.",
  ["inputs"], "all byte strings up to three or four bytes over class-representative alphabets, all Unicode code points, all escapes, at every offset around the processing window",
  "byte-class interactions (truncated sequences before a quote, window boundaries) are far too many to sample",
  ["include/eosio/to_json.hpp", "include/eosio/from_json.hpp"],
  [("escape", "include/eosio/to_json.hpp: to_json(std::string_view), stream_adaptor"), ("parse", "include/eosio/from_json.hpp: json_token_stream")],
  None, ["convert_to_json(std::string)", "abieos_json_to_bin / bin_to_json of string"])

p("C17", "Names convert exactly between text and 64-bit values",
  "Every text that is a valid name (at most 12 characters of '.', '1'-'5', 'a'-'z', optionally a 13th up to 'j') maps to its 5-bit packed value, and every 64-bit value prints to the unique text without trailing dots that maps back to it; numeric order equals text order with '.' lowest. Strict conversion refuses every other text, the lenient conversion and JSON input give documented values for it and never fail, and length, prefix and suffix agree with the text.",
  ["inputs"], "all texts up to four characters over the full byte range classes and all lengths 0-14 over boundary characters; all values with at most three set bits or boundary digit patterns",
  "character-position interactions (13th character, trailing dots, suffix across dots) exceed sampled names",
  ["include/eosio/chain_conversions.hpp", "include/eosio/name.hpp", "include/eosio/murmur.hpp", "src/abieos.cpp"],
  [("codec", "include/eosio/chain_conversions.hpp: string_to_name, try_string_to_name_strict, name_to_string"), ("parts", "include/eosio/name.hpp: length, prefix, suffix"), ("hash fallback", "include/eosio/name.hpp: hash_name; murmur.hpp")],
  None, ["abieos_string_to_name, abieos_name_to_string", "name type in JSON"])

p("C18", "Symbols and asset amounts convert exactly or are refused",
  "Every asset with a valid symbol prints as its decimal amount with exactly the symbol's number of decimals, followed by the code, and that text converts back to the same amount and symbol; the same holds for symbols and symbol codes. Text whose amount does not fit 64 bits, whose precision does not fit, or whose code is not one to seven capital letters is refused rather than wrapped.",
  ["inputs"], "all precisions 0-255, amounts around every power of ten and the 64-bit limits, codes of every length, and all short texts over the asset alphabet",
  "wrap-around and digit placement errors appear only for particular amount/precision pairs",
  ["include/eosio/chain_conversions.hpp", "include/eosio/asset.hpp", "include/eosio/symbol.hpp"],
  [("asset text", "include/eosio/chain_conversions.hpp: string_to_asset, asset_to_string"), ("symbol text", "include/eosio/chain_conversions.hpp: string_to_symbol, string_to_symbol_code, symbol_to_string"), ("validity", "include/eosio/symbol.hpp: is_valid, length")],
  None, ["asset/symbol/symbol_code in JSON", "asset::to_string, convert_from_string<asset>"])

p("C19", "Asset arithmetic is exact within its range and refused outside it",
  "Sums, differences, products and quotients of assets equal the mathematical result (division truncating toward zero) whenever that lies within plus or minus (2^62 - 1), and are refused otherwise; mixing symbols or contracts, dividing by zero and constructing out-of-range or invalid-symbol assets are refused. Comparisons of same-symbol assets order by amount and are mutually consistent.",
  ["inputs"], "all pairs over amounts near zero, the limits, and powers of two, all operators, two symbols and two contracts",
  "overflow checks fail only at isolated operand pairs",
  ["include/eosio/asset.hpp"],
  [("operators", "include/eosio/asset.hpp: operator+=,-=,*=,/=, comparisons, extended_asset")],
  None, ["eosio::asset and extended_asset operators"])

p("C20", "Times convert exactly between counts and calendar text",
  "Every time point, second count and block slot that falls in the years 1970-9999 prints as the correct UTC calendar date and time (milliseconds shown) and that text converts back to the same instant at the type's resolution. Texts that are not a real calendar date and time in the prescribed form, or denote an instant the type cannot represent, are refused; conversions and arithmetic between the time types agree with integer arithmetic.",
  ["inputs"], "every day from 1970 to 9999, every second of selected days, every millisecond of selected seconds, all block slots at boundaries, all field values 00-99",
  "leap-year, month-length and range errors occur on particular dates",
  ["include/eosio/time.hpp", "include/eosio/chain_conversions.hpp"],
  [("calendar", "include/eosio/chain_conversions.hpp: year_month_day, microseconds_to_str, string_to_utc_seconds, string_to_utc_microseconds"), ("types", "include/eosio/time.hpp")],
  None, ["time_point, time_point_sec, block_timestamp in JSON"])

p("C21", "Keys and signatures in text form are exact and self-checking",
  "Every public key, private key and signature of every kind prints as its prefix plus the base-58 text of the data and its checksum, and that text converts back to the same kind and data; the older public-key prefix is also accepted. Text with a character outside the base-58 alphabet, a wrong checksum, a checksum of another kind, a wrong length, or an unknown prefix is refused; base-58 conversion itself is exact in both directions including leading zeros.",
  ["inputs"], "all byte strings up to a length for base-58, boundary-pattern keys of every kind, every single-character change, deletion, insertion and prefix swap of their texts",
  "a checksum hole or alphabet hole shows only for particular corruptions",
  ["src/crypto.cpp", "include/eosio/crypto.hpp", "include/eosio/abieos_ripemd160.hpp"],
  [("base58", "src/crypto.cpp: base58_to_binary, binary_to_base58"), ("checksum", "src/crypto.cpp: string_to_key, key_to_string, digest_suffix_ripemd160"), ("hash", "include/eosio/abieos_ripemd160.hpp")],
  None, ["public_key/private_key/signature in JSON", "eosio::to_base58, from_base58"])

p("C22", "Fixed-size byte values keep byte order in every representation",
  "A 16-, 20-, 32- or 64-byte value has the same byte sequence in binary, in hex text, in byte arrays and in arrays of words of every width; constructing from fewer elements fills with zeros, and extracting at any word width and rebuilding gives the same value. Comparison is lexicographic by bytes; hex text of any other length or with a non-hex character is refused.",
  ["inputs"], "all single- and double-byte patterns at all positions, all word widths, all sizes, all hex lengths around the right one",
  "word/byte conversions go wrong at particular positions, sizes and widths",
  ["include/eosio/fixed_bytes.hpp", "include/eosio/from_json.hpp", "include/eosio/to_json.hpp"],
  [("conversion", "include/eosio/fixed_bytes.hpp: convert_array, read_be, write_be"), ("hex", "include/eosio/from_json.hpp: unhex, from_json_hex; to_json.hpp: to_json_hex")],
  None, ["checksum160/256/512, float128, fixed_bytes<N,W>"])

p("C23", "Sort keys preserve order, equality and are prefix-free",
  "For any two values of a type with a sort-key encoding (integers, floats, strings, names and other chain types, enums, arrays, sequences, sets, maps, optionals, variants, tuples, pairs, reflected structs, and any nesting of them), bytewise comparison of the keys gives the same result as comparing the values, equal values have equal keys, and no key is a proper prefix of another. The computed key size is the number of bytes written.",
  ["inputs"], "all pairs over bounded value domains of a bounded family of composed types",
  "an ordering is a statement about all pairs; a wrong terminator or sign flip breaks few of them",
  ["include/eosio/to_key.hpp", "include/eosio/varint.hpp", "include/eosio/fixed_bytes.hpp"],
  [("keys", "include/eosio/to_key.hpp")],
  None, ["eosio::convert_to_key"])

p("C24", "Native C++ serialization agrees with ABI-driven serialization",
  "For reflected C++ types, native binary encoding, binary decoding, JSON printing and JSON parsing are mutually inverse for every value (native JSON parsing takes the members of a record in any order and skips unknown ones whole; every proper prefix of an encoding, every alternative number that does not exist, every wrong count of a fixed array is refused; decoding replaces whatever the target object held), and agree byte for byte with conversion through the ABI generated from the same type. Output through a growing buffer, a fixed buffer and a size counter agree, and indented JSON differs from compact JSON only in white space.",
  ["inputs", "configurations"], "all values over bounded domains of a bounded family of reflected types covering every supported container",
  "two implementations (templates and the ABI interpreter) must agree on every value of every type",
  ["include/eosio/from_bin.hpp", "include/eosio/to_bin.hpp", "include/eosio/from_json.hpp", "include/eosio/to_json.hpp", "include/eosio/abi.hpp", "include/eosio/reflection.hpp", "include/eosio/types.hpp"],
  [("native codecs", "include/eosio/{to,from}_{bin,json}.hpp"), ("ABI generation", "include/eosio/abi.hpp: add_type"), ("type names", "include/eosio/types.hpp: get_type_name")],
  None, ["convert_to_bin, convert_from_bin, convert_to_json, format_json, from_json, abi::add_type"])

p("C25", "Stream operations never leave their buffer and report exact positions",
  "For every sequence of reads, skips, borrowed reads and writes of any sizes, an input stream delivers exactly the next bytes and advances by exactly that many or refuses without moving, and a fixed output buffer stores exactly the bytes written or refuses without writing; neither ever touches memory outside its buffer. A growing buffer and a size counter accept everything and agree with the fixed buffer; hex decoding accepts exactly even-length hex text.",
  ["histories", "inputs"], "all operation sequences up to a depth bound over buffer sizes 0-4 and request sizes including huge ones",
  "bounds violations need a particular sequence of sizes at the buffer end",
  ["include/eosio/stream.hpp", "include/eosio/from_json.hpp", "src/abieos.hpp"],
  [("streams", "include/eosio/stream.hpp: input_stream, fixed_buf_stream, vector_stream, size_stream, pretty_stream"), ("hex", "unhex in include/eosio/from_json.hpp and src/abieos.hpp")],
  [("pos/end", "cursor and limit of a stream", "include/eosio/stream.hpp")],
  ["eosio::input_stream, fixed_buf_stream, vector_stream, size_stream"])

p("C26", "State-history messages have the published wire layout",
  "Every state-history protocol type (requests, results of both versions, block positions, traces, table rows, deltas, transactions and their receipts, block headers and signed blocks) encodes as the published field sequence, decodes back to the same value, is converted to the same JSON and back by the published ABI of the protocol, and each variant uses its published case index and name. Truncating an encoding at any byte is refused, and transaction status codes and their names correspond one to one.",
  ["inputs"], "for every type, a value with every field distinct, and every optional/variant/vector branch toggled one and two at a time; every truncation point",
  "dozens of types and versions with many optional and variant branches; tests cover almost none",
  ["include/eosio/ship_protocol.hpp", "include/eosio/chain_types.hpp", "include/eosio/opaque.hpp"],
  [("types", "include/eosio/ship_protocol.hpp: EOSIO_REFLECT declarations"), ("status", "include/eosio/ship_protocol.hpp: to_string/get_transaction_status")],
  None, ["eosio::ship_protocol types via to_bin/from_bin/to_json/abi"])

p("C27", "Hash functions give the standard digests for every input split",
  "The RIPEMD-160 used in checksums returns the standard digest for messages of every length, however the message is split into updates, and refuses use in a wrong state. The 64-bit name hash depends on all bytes and only on the bytes of its input and gives its established values.",
  ["inputs", "histories"], "all message lengths through several blocks, all two- and three-way splits, all update/digest call sequences to a bound",
  "block-boundary handling is wrong only at particular lengths and splits",
  ["include/eosio/abieos_ripemd160.hpp", "include/eosio/murmur.hpp"],
  [("ripemd160", "include/eosio/abieos_ripemd160.hpp: init/update/digest"), ("murmur64", "include/eosio/murmur.hpp")],
  [("bufpos/length", "bytes pending in block and total bits", "abieos_ripemd160.hpp: ripemd160_state")],
  ["abieos_ripemd160::*", "eosio::murmur64"])

p("C28", "The name command-line tool maps names and numbers faithfully",
  "For every argument the name tool prints the conversion the library defines: names to their decimal or hexadecimal value and numbers (decimal, hexadecimal or octal) back to the name, with the options and the program's name selecting direction and base, for every argument in turn or every line of standard input. Values printed in one direction are accepted in the other and give back the original; invalid arguments give a diagnostic, never a crash.",
  ["inputs"], "all argument vectors of up to three arguments over an alphabet of options, names and numbers",
  "argument combinations are untested and unbuilt by the test suite",
  ["tools/name.cpp"],
  [("tool", "tools/name.cpp: main, handle_one")],
  None, ["stdout and exit status of the tool"])

p("C29", "Portable 128-bit arithmetic equals native arithmetic",
  "The byte-array helpers used where the compiler lacks 128-bit integers convert decimal text to binary and back, negate and test the sign exactly as two's-complement arithmetic of the same width prescribes, for every width. Empty text, text with non-digits or a value too large for the width is refused, and the replacement 128-bit types accept, refuse and print exactly what the native ones do.",
  ["inputs"], "all values of 8- and 16-bit widths, all values around powers of two and ten for 32, 64 and 128 bits, all short texts",
  "carry propagation errors occur at isolated values and the code path is not compiled on test platforms",
  ["include/eosio/abieos_numeric.hpp", "src/abieos.hpp"],
  [("helpers", "include/eosio/abieos_numeric.hpp: decimal_to_binary, binary_to_decimal, negate, is_negative"), ("alternative int128", "src/abieos.hpp: ABIEOS_NO_INT128 section")],
  None, ["abieos::decimal_to_binary etc."])

p("C30", "Structural conversion, deferred values and reflected comparison are faithful",
  "Converting between related record types copies every shared member (recursively through sequences, optionals and variants), default-initialises members only the target has and drops only members it lacks. A deferred (length-prefixed) value unpacks to exactly the value encoded, whole or element by element, leaves the enclosing data aligned and never reads past its own bytes; comparison of reflected records is the lexicographic order of their members and all six operators agree.",
  ["inputs", "histories"], "all values over bounded domains for a family of related record types, all unpack sequences, all pairs for comparison",
  "generic templates whose errors depend on member order, nesting and values",
  ["include/eosio/convert.hpp", "include/eosio/opaque.hpp", "include/eosio/operators.hpp", "include/eosio/for_each_field.hpp"],
  [("convert", "include/eosio/convert.hpp"), ("opaque", "include/eosio/opaque.hpp"), ("compare", "include/eosio/operators.hpp")],
  None, ["eosio::convert, eosio::opaque, EOSIO_COMPARE operators"])

p("C31", "A conversion can be abandoned at any step",
  "A conversion given a callback runs it at least once for every struct member, array element and chosen alternative it converts, never converting more than one value between two calls, and never after it has ended. An exception of any kind thrown by any of these calls ends the conversion and reaches the caller unchanged; nothing leaks, and the type and all later conversions behave as if it had not been tried. A callback that returns never changes the result or the error, even if it runs other conversions of the same type.",
  ["fault_sequences", "schedules", "inputs"], "all types and values of a bounded grammar, all three conversions, all calls of the callback as points of failure or interleaving, on well-formed and damaged input",
  "no test passes a callback; servers rely on it to enforce time limits on hostile input",
  ["src/abieos.hpp", "src/abi.cpp", "include/eosio/abi.hpp"],
  [("callback", "src/abieos.hpp: json_to_bin, bin_to_json main loops (f())"), ("entry", "src/abi.cpp: abi_type::json_to_bin, json_to_bin_reorderable, bin_to_json")],
  [("conversion stack", "open containers of the conversion in progress", "src/abieos.hpp: jvalue_to_bin_state, json_to_bin_state, bin_to_json_state")],
  ["abi_type::json_to_bin / json_to_bin_reorderable / bin_to_json with a callback"])

p("C32", "Value types compare and compute as the values they hold",
  "Times, durations, block slots, variable-length integers, names, symbols and records compared by their members order and compare exactly as the integers they hold, with all operators they offer in agreement, also against plain integers; keys, signatures and byte strings are equal exactly when their encodings are and their order is a consistent total order. Arithmetic and conversion between time types is exact whenever the result fits, slots and time points convert into each other without loss, and a slot past the last one is refused. A failed check always throws its message and a successful one never does.",
  ["inputs"], "all pairs of values over boundary domains of each type, every block slot, every symbol code over byte classes",
  "rounding, sign and width errors show only at isolated values or for one of a dozen operators, most of which no test calls",
  ["include/eosio/varint.hpp", "include/eosio/time.hpp", "include/eosio/symbol.hpp", "include/eosio/crypto.hpp", "include/eosio/bytes.hpp", "include/eosio/check.hpp", "include/eosio/ship_protocol.hpp"],
  [("integers", "include/eosio/varint.hpp: unsigned_int, signed_int operators"), ("times", "include/eosio/time.hpp: microseconds, time_point, time_point_sec, block_timestamp"), ("symbols", "include/eosio/symbol.hpp"), ("comparison", "EOSIO_COMPARE of value types"), ("check", "include/eosio/check.hpp: check overloads")],
  None, ["operators and conversions of the value types"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
