#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only for readability of the text).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("P01","Decoding by type yields exactly the SCALE value, from exactly its bytes",
 "For every type registry, type, start position and input, decoding by type returns exactly the value that the SCALE encoding rules assign to those bytes for that type - every field, tuple element, sequence/array element and enum variant in declared order, under its declared name and type name, with its exact numeric/text/byte value - and ends exactly after the last byte of that value. If the bytes are not a valid encoding of the type (too short, unknown variant, invalid bool/char/str/compact), or the registry does not describe a decodable type, it returns an error and never a value.",
 ["inputs","configurations"],"all type registries (graphs of composite/variant/tuple/array/sequence/compact/primitive/bit sequence), all start positions, all byte strings",
 "The tests decode a few dozen fixed hex strings with 11 fixed metadata files; they fix neither type shapes the chains do not use, nor the other inputs of the shapes they do use.",
 ["src/decoding_sci.rs","src/special_types.rs","src/compacts.rs","src/lib.rs"],
 [("decode_with_type","src/decoding_sci.rs"),("decode_fields / decode_variant / decode_elements_set / husk_type","src/decoding_sci.rs"),("StableLength::cut_and_decode","src/special_types.rs")],
 ["decode_as_type_at_position","decode_all_as_type"])

p("P02","Nothing is left over: whole-input decoders accept only fully used input",
 "Every decoder that claims to interpret a whole piece of data (a blob as a type, the call part and the extensions part of a signable transaction, a storage key, a storage value, an unchecked extrinsic) succeeds only if the decoded content ends exactly at the end of that data. One extra byte, or one missing byte, always turns success into an error.",
 ["inputs"],"all inputs accepted by any whole-input entry point, each with every truncation and with added trailing bytes",
 "Tests contain single examples of surplus data for some entry points; the guarantee is over every accepted input of every entry point.",
 ["src/lib.rs","src/decoding_sci.rs","src/decoding_sci_ext.rs","src/storage_data.rs","src/unchecked_extrinsic.rs"],
 [("decode_all_as_type","src/lib.rs"),("decode_as_call","src/decoding_sci.rs"),("decode_extensions_unmarked","src/decoding_sci_ext.rs"),("process_key_mapped / decode_as_storage_entry","src/storage_data.rs"),("decode_as_unchecked_extrinsic","src/unchecked_extrinsic.rs")],
 ["decode_all_as_type","parse_transaction","decode_as_storage_entry","decode_as_unchecked_extrinsic"])

p("P03","No input or metadata makes the parser panic, overflow or loop",
 "For every input bytes, every start position and every type registry - including malformed, dangling and cyclic ones - every public parsing entry point terminates with a value or an error; it never panics, never overflows arithmetic, never loops forever, and never sets memory aside for declared lengths that the data does not hold. The same holds for turning a decoded value into cards and text.",
 ["inputs","configurations"],"all inputs (including truncated at any byte and with hostile length prefixes), all registries (including cyclic/dangling), all entry points, overflow checks on",
 "Panics hide at specific lengths, digit counts and type shapes; the tests feed well-formed data plus a handful of damaged strings.",
 ["src/decoding_sci.rs","src/compacts.rs","src/special_types.rs","src/storage_data.rs","src/unchecked_extrinsic.rs","src/printing_balance.rs","src/cards.rs","src/lib.rs"],
 [("Checker::check_id cycle tracking","src/propagated.rs"),("AddressableBuffer bounds errors","src/decoding_sci.rs"),("find_compact length cap","src/compacts.rs")],
 ["all public entry points"])

p("P04","Extensions are accepted only for the right chain and metadata version",
 "Signed extensions are accepted only if, among the decoded extension values (taken directly or from a single-field struct), the spec version appears exactly once and equals the version in the metadata, the genesis hash appears exactly once and equals the expected genesis hash whenever one is given, era and block hash appear at most once each, and with an immortal era the block hash equals the genesis hash. Otherwise the specific error for a violated condition is returned; if all hold and the data is fully used, the extensions are always accepted and returned in metadata order, all included parts before all additional-signed parts.",
 ["inputs","configurations"],"all lists of signed extensions (any identifiers, types, order, repetition, wrapping) and all extension bytes, with and without an expected genesis hash",
 "Tests have one or two transactions per failing condition, all with the extension list of one chain; combinations, orders and wrappings of extensions are not reached.",
 ["src/decoding_sci_ext.rs","src/special_indicators.rs","src/special_types.rs"],
 [("check_extensions / CollectedExt","src/decoding_sci_ext.rs"),("Hint::from_ext_meta","src/special_indicators.rs"),("special_case_h256","src/special_types.rs")],
 ["decode_extensions","decode_extensions_unmarked","parse_transaction"])

p("P05","Call and extensions of a signable transaction are separated correctly",
 "A signable transaction with a length prefix is split exactly at the prefix: the call is decoded only from the declared call bytes, the extensions only from what follows, an invalid or too long prefix is refused, and bytes of one part never influence the other. Extensions errors fail the whole parse, call errors are reported while the extensions are still delivered, and for the same call and extensions the prefixed and the unprefixed entry points deliver equal results.",
 ["inputs"],"all length prefixes (every compact mode and value around the true boundaries), all call/extension byte combinations, marked and unmarked entry points",
 "Tests use correct prefixes with real transactions and two damaged ones; boundary positions and the marked/unmarked agreement are not enumerated.",
 ["src/lib.rs","src/decoding_sci.rs","src/decoding_sci_ext.rs"],
 [("MarkedData::mark / data_no_extensions","src/lib.rs"),("decode_as_call","src/decoding_sci.rs"),("parse_transaction / parse_transaction_unmarked","src/lib.rs")],
 ["MarkedData","parse_transaction","parse_transaction_unmarked","decode_as_call","decode_extensions"])

p("P06","Calls and events are recognised exactly, with the right pallet and names",
 "A value is reported as a call (event) exactly if its type is an enum whose path ends in Call/RuntimeCall (Event/RuntimeEvent) and the variant selected by the data has a single field whose type is again an enum with a path of the same kind; then pallet name, call/event name, pallet info, docs and fields are those of the two selected variants by index. In all other cases the value is decoded as an ordinary value, and a transaction whose call type does not give a call is refused.",
 ["inputs","configurations"],"all two-level enum shapes around the call/event pattern (path kinds, field counts, nested kinds, index gaps and order), all selecting bytes, nested calls at any depth",
 "Tests see only metadata where the pattern is well-formed; index/order confusion and near-miss patterns need other registries.",
 ["src/special_indicators.rs","src/decoding_sci.rs"],
 [("SpecialtyTypeChecked::from_type","src/special_indicators.rs"),("pick_variant / decode_variant","src/decoding_sci.rs"),("decode_as_call_unmarked","src/decoding_sci.rs")],
 ["decode_as_call","decode_as_type_at_position"])

p("P07","Well-known chain types are recognised by path and decoded with fixed layout",
 "Types whose path names a well-known chain type (AccountId32, AccountId20/H160, H256, H512, Era, PerU16, Percent, Permill, Perbill, Perquintill, and Public/Signature in the sp_core ed25519/sr25519/ecdsa namespaces) decode to that special value from exactly its fixed-size bytes, wherever they occur. A MultiSignature variant decodes to the matching signature exactly if its single field is named as that signature's type and really is (itself or inside plain single-field structs, not compact) a byte array of that signature's length; types with similar but different paths are decoded by their ordinary definition.",
 ["inputs","configurations"],"all paths (idents and namespaces) crossed with all positions in a type (direct, field, sequence element, array element, compact), all MultiSignature variant shapes and bytes",
 "Tests show each special type in one place at most; several (PerU16, Permill, ecdsa/ed25519 publics, signature look-alikes) hardly occur.",
 ["src/special_indicators.rs","src/special_types.rs","src/decoding_sci.rs"],
 [("SpecialtyTypeHinted::from_type","src/special_indicators.rs"),("SignatureIndicator::from_field","src/special_indicators.rs"),("CheckCompact::parse_check_compact","src/special_types.rs")],
 ["decode_as_type_at_position"])

p("P08","Balance, nonce, version, tip, hash meanings attach to the right values",
 "A number, text or hash is marked as balance, nonce, spec version, tx version, tip, asset tip, spec name, genesis hash or block hash exactly when the nearest naming evidence on the path from the enclosing enum, sequence or extension to the value says so: the first recognised signed-extension identifier, field name, balance type name or tuple-element path prevails, meanings do not pass through a multi-field struct or multi-element tuple (except the asset tip), and sequence and array elements and enum fields start afresh. Every other value carries no meaning.",
 ["inputs","configurations"],"all chains of wrappers (structs, tuples, compacts, sequences, enums) with all combinations of recognised and unrecognised names and extension identifiers",
 "The interplay of several names along one path never occurs in the tests; each hint is seen in its usual single place.",
 ["src/propagated.rs","src/special_indicators.rs","src/decoding_sci.rs"],
 [("Hint::from_field / from_ext_meta / from_path","src/special_indicators.rs"),("Checker::update_for_field / update_for_ty, SpecialtySet::forget_hint","src/propagated.rs"),("husk_type","src/decoding_sci.rs")],
 ["decode_as_type_at_position","decode_extensions"])

p("P09","A storage key is accepted only if its hashes match and it is fully used",
 "For every storage entry, a key is accepted exactly if after the 32-byte prefix it consists of one part per hasher in order: the bare hash of the hasher's width for opaque hashers, the hash followed by the encoded key part hashing to it for the two concat hashers, the encoded key part alone for identity; and the value fully decodes as the value type. The decoded parts, hash bytes, type ids and entry docs are returned in order; a key of the wrong length, a hash mismatch in any bit, or hashers that do not fit the key type give an error.",
 ["inputs","configurations"],"all hasher lists, key and value types, all keys including every single-byte corruption and truncation",
 "Tests check one good key for five storage shapes; no corrupted hash, no mixed hasher list with other orders.",
 ["src/storage_data.rs"],
 [("process_key_mapped, cut_hash!, check_hash!","src/storage_data.rs"),("decode_as_storage_entry","src/storage_data.rs")],
 ["decode_as_storage_entry","process_key_mapped"])

p("P10","Unchecked extrinsics are accepted only with right length, version and content",
 "An unchecked extrinsic is accepted exactly if its length prefix equals the number of remaining bytes, the low seven bits of the version byte equal the metadata's extrinsic version, and the remaining content is - fully, with no byte left - a call if the top bit is clear, or address, signature, extra and call in this order if it is set. The result is unsigned or signed according to the top bit and carries those parts decoded by the types the metadata names for them.",
 ["inputs","configurations"],"all length prefixes, all 256 version bytes times metadata versions, all part types and contents, trailing and missing bytes",
 "Tests decode six correct extrinsics; wrong lengths, versions and trailing data are not tried.",
 ["src/unchecked_extrinsic.rs"],
 [("decode_as_unchecked_extrinsic","src/unchecked_extrinsic.rs")],
 ["decode_as_unchecked_extrinsic"])

p("P11","Displayed balances are numerically exact",
 "For every unsigned integer value, every number of decimals and every unit, the displayed number times the displayed SI prefix equals the value divided by ten to the decimals, exactly. All digits of the value are shown (no rounding or truncation), the shown unit is the given unit behind a prefix from atto to tera, and the number is well-formed decimal text without superfluous leading zeros.",
 ["inputs"],"all values of u8..u128 by digit count and digit pattern, all 256 decimals",
 "The tests check about fifty value/decimals pairs; branches depend on the digit count, and on decimals modulo three and limits at both ends.",
 ["src/printing_balance.rs","src/cards.rs"],
 [("convert_balance_string","src/printing_balance.rs"),("specialty_card!","src/cards.rs")],
 ["AsBalance::convert_balance_pretty","ExtendedData::card"])

p("P12","Cards show the whole decoded value, faithfully and in order",
 "Turning a decoded value into cards (and into text with and without docs) emits, in depth-first declared order and with indentation equal to nesting depth, a card for every leaf, field name or number, variant, call, event and container of the value, with exactly its content - hex, text, number, SS58 address under the given prefix, balance in the given unit. Balances are formatted with units only in extensions and within Balances and Staking pallet items, and raw otherwise; nothing of the value is dropped, duplicated or altered.",
 ["inputs","configurations"],"all decoded values (every leaf kind, every nesting of containers), all chain specs, with balance display on and off",
 "Tests compare the printed cards for some tens of decoded values; many card kinds and nestings never occur.",
 ["src/cards.rs","src/lib.rs"],
 [("ParsedData::card, PalletSpecificData::card, card_field_set, card_unnamed_single_field","src/cards.rs"),("ExtendedCard::show / show_with_docs","src/cards.rs"),("TransactionParsed::card","src/lib.rs")],
 ["ExtendedData::card/show/show_with_docs","Call::card","Event::card","TransactionParsed::card"])

p("P13","Results do not depend on how the input is stored",
 "For the same bytes, parsing from any addressable memory - a slice, or external memory delivering bytes in pages through copies - gives the same result, position and error as parsing from a plain slice. The parser only ever asks for bytes through the memory interface, at positions determined by the data before them, and bytes beyond those it needs never change the result.",
 ["inputs","configurations"],"all inputs and registries, paged and plain memory, every page alignment, any content of unread bytes",
 "Nearly all tests parse plain slices; the paged test buffer is exercised with a few successful transactions only.",
 ["src/lib.rs","src/decoding_sci.rs","src/compacts.rs","src/special_types.rs","src/storage_data.rs"],
 [("AddressableBuffer usage throughout","src/decoding_sci.rs")],
 ["all generic entry points"])

p("P14","A failed external memory access is never turned into a result",
 "If any access to external memory (reading input bytes or resolving a type) fails during a parse - once or from then on permanently - the parse returns an error; it never panics and never returns a value as if nothing had failed.",
 ["fault_sequences","inputs"],"every access index of every explored parse, single transient and permanent faults, every entry point",
 "No test injects a failing memory or registry access.",
 ["src/special_indicators.rs","src/storage_data.rs","src/decoding_sci.rs","src/compacts.rs","src/lib.rs"],
 [("error propagation with ?","src/decoding_sci.rs"),("SpecialtyTypeChecked::from_type / SignatureIndicator::from_field","src/special_indicators.rs"),("check_hash! second read","src/storage_data.rs")],
 ["all generic entry points with faulting ExternalMemory"])

p("P15","Spec name, version and extrinsic parameters are those of the metadata",
 "For runtime metadata V14 and V15, the spec name and version are those of the System pallet's Version constant and are delivered exactly if that constant fully decodes to a struct with exactly one spec_name text and one spec_version number; the extrinsic parameters are the type parameters Address, Call, Signature and Extra of the extrinsic type (V14, if it is an opaque byte vector) or the declared types (V15); call type, extrinsic version and signed extensions are delivered unchanged and in order. A missing System pallet, Version constant, name, version or parameter, and a name or version given twice, is the corresponding error, never a guess.",
 ["configurations","inputs"],"all pallet/constant layouts, Version constant types and bytes, extrinsic type shapes and parameter lists, for both metadata versions",
 "Tests read the values from real, well-formed metadata only.",
 ["src/traits.rs"],
 [("version_constant_data_and_ty_v14/v15","src/traits.rs"),("spec_name_version_from_runtime_version_data","src/traits.rs"),("extrinsic_type_params / process_extrinsic_type_params","src/traits.rs")],
 ["AsMetadata","AsCompleteMetadata"])

p("P16","Compact integers decode exactly and only in canonical form",
 "For every position and input, reading a compact integer of any width (u8 to u128, and fractions stored as such) succeeds exactly if the bytes there start with the canonical SCALE compact encoding of a number that fits the width; it then yields that number and the position right after it. Length prefixes of sequences, strings, bit sequences, calls and extrinsics obey the same rule.",
 ["inputs"],"all compact encodings: every first byte, all modes, all lengths and boundary values of each width, non-canonical and truncated forms, all positions",
 "Tests decode a few canonical compacts; boundaries, non-canonical forms and 17-byte forms are not enumerated.",
 ["src/compacts.rs","src/special_types.rs"],
 [("find_compact / get_compact","src/compacts.rs"),("parse_unsigned_integer / impl_allow_compact","src/special_types.rs")],
 ["compacts::find_compact","compacts::get_compact","decode_as_type_at_position"])

p("P17","Bit sequences decode to exactly the encoded bits",
 "A bit sequence of any length, store type u8/u16/u32/u64 and order Lsb0/Msb0 decodes to exactly the encoded number of bits with exactly the encoded bit values in order, consuming exactly the length prefix and the whole store elements holding them - on 64-bit and on 32-bit targets alike. Any other store or order type, and data that is too short, is an error.",
 ["inputs","configurations"],"all bit lengths, bit patterns, store types, orders, on 64-bit and 32-bit targets",
 "Tests decode about ten bit vectors on 64-bit; the separate 32-bit implementation is tested with four, none of which has a zero half in the last element.",
 ["src/decoding_sci.rs"],
 [("decode_type_def_bit_sequence / BitVecPositions / find_bit_order_ty","src/decoding_sci.rs"),("patch_bitvec_u64, reform_vec_lsb0/msb0 (32-bit)","src/decoding_sci.rs")],
 ["decode_as_type_at_position with TypeDef::BitSequence"])

p("P18","Transaction era is decoded exactly as encoded",
 "Every era decodes to immortal from a single zero byte, or to the mortal period (a power of two from 4 to 65536) and phase (below the period) given by the two-byte encoding, consuming exactly these bytes; all other byte pairs are errors. Encoding a decoded era gives the same bytes back, and the displayed era shows that period and phase.",
 ["inputs"],"all one- and two-byte encodings, all period/phase pairs",
 "Three era encodings are tested out of 65536.",
 ["src/additional_types.rs","src/special_types.rs","src/cards.rs"],
 [("Era Decode/Encode","src/additional_types.rs"),("special_case_era","src/special_types.rs")],
 ["Era","decode_as_type_at_position","ExtendedCard::show"])

p("P19","Documentation and type paths are attached to the right nodes",
 "Every decoded node carries exactly the docs and path of the types it was decoded through, outermost first: the node's own type, types unwrapped by compacts, and for sequences and arrays the types of the element unwrapped down to its innermost type as element info; empty entries are omitted. Fields, variants, pallets and storage entries carry exactly their own docs, joined by line breaks.",
 ["configurations","inputs"],"all type graphs with every subset of types, fields and variants documented or having a path",
 "Tests compare some printed docs; most types in the tested paths have no docs, so misattribution does not show.",
 ["src/cards.rs","src/propagated.rs","src/decoding_sci.rs","src/storage_data.rs"],
 [("Info::from_ty, Documented::collect_docs","src/cards.rs"),("Propagated::add_info","src/propagated.rs"),("husk_type info","src/decoding_sci.rs")],
 ["ExtendedData::info","SequenceData/SequenceRawData element_info"])

p("P20","Compact encoding is applied exactly where the type allows it",
 "A compact wrapper is decoded as compact exactly if its inner type is an unsigned integer up to 128 bits or a fraction type, directly or through single-field structs and single-element tuples; the inner number is then read in compact form, otherwise in plain form. A compact around anything else (bool, char, signed or 256-bit number, text, sequence, array, enum, multi-field struct, multi-element tuple, bit sequence, special type, another compact) is an error, also inside sequences and arrays.",
 ["configurations","inputs"],"all nestings of compact, struct, tuple, sequence, array, enum around every leaf type",
 "The tests only contain compacts of allowed types in the usual places.",
 ["src/decoding_sci.rs","src/propagated.rs","src/special_types.rs"],
 [("SpecialtySet::reject_compact","src/propagated.rs"),("impl_allow_compact / impl_block_compact","src/special_types.rs"),("husk_type","src/decoding_sci.rs")],
 ["decode_as_type_at_position"])

p("P21","Parsing has no memory: any history of calls leaves later results unchanged",
 "The result of every parsing call depends only on its arguments: after any sequence of earlier calls, successful or failed, with the same or other metadata, and also when another parse runs to completion in the middle of it (inside a memory access callback), each call gives the same result as alone in a fresh process.",
 ["histories","schedules"],"all sequences of up to several operations over a set of successful and failing parses with different metadata, and all single nestings at every memory access",
 "Tests run each parse once and never check one call after another on purpose.",
 ["src/lib.rs","src/decoding_sci.rs","src/propagated.rs","src/cards.rs"],
 [("no shared mutable state: Checker/Propagated are built per call","src/propagated.rs")],
 ["all entry points"])

p("P22","All build configurations decode alike",
 "The library built without std, and the library built for a 32-bit target, decode, reject and display every input exactly like the 64-bit std build: same values, positions, errors and card texts.",
 ["configurations","inputs"],"std/no_std and 64/32-bit builds crossed with all explored registries and inputs",
 "The tests run only in the 64-bit std configuration.",
 ["src/lib.rs","src/decoding_sci.rs","src/cards.rs","src/special_types.rs"],
 [("cfg(feature = std) / cfg(target_pointer_width)","src/decoding_sci.rs"),("no_std aliases","src/lib.rs")],
 ["all entry points in a no_std i686 build"])

p("P23","Endless types are refused, recursive but finite data is decoded",
 "If a type refers back to itself without consuming a byte in between (through structs, tuples, arrays, compacts or sequence elements being unwrapped), decoding it returns an error instead of looping. Recursion that consumes data between the visits (through enums and sequences) is decoded normally to every depth the stack holds, and a type that is merely used several times side by side is never mistaken for a cycle.",
 ["configurations","inputs"],"all small type graphs with arbitrary back references and sharing, all data for them",
 "Tests contain a few hand-made cyclic registries; sharing and legitimate recursion are covered only by what the chains use.",
 ["src/propagated.rs","src/decoding_sci.rs"],
 [("Checker::check_id / drop_cycle_check","src/propagated.rs"),("husk_type","src/decoding_sci.rs")],
 ["decode_as_type_at_position","husk_type"])

p("P24","Sequences and arrays keep every element, in order, in compacted form or not",
 "A sequence of n encoded elements and an array of n elements decode to exactly n elements in order with exactly their values; collecting plain unsigned numbers or byte strings into compact vectors never changes their number, order, value or description, and is done exactly when all elements are plain unsigned numbers of one width without special meaning, or byte strings (empty ones included after a non-empty first). Empty sequences and arrays stay empty and consume no element bytes.",
 ["inputs","configurations"],"all element types, element counts (including prefixes beyond the data), and element value combinations including empty inner sequences",
 "Tests contain some byte and integer vectors; mixtures such as empty inner sequences in different places are not enumerated.",
 ["src/decoding_sci.rs","src/special_types.rs"],
 [("decode_elements_set","src/decoding_sci.rs"),("wrap_sequence / husk_set","src/special_types.rs")],
 ["decode_as_type_at_position","ParsedData::Sequence / SequenceRaw"])

p("P25","Errors say what failed and where",
 "When decoding fails, the error names the failing condition of the first offending item in decoding order - data too short, unexpected enum variant, invalid compact, invalid primitive, unused data, unresolved or cyclic type, misplaced compact - with that item's absolute position in the input, or the id of the offending type, and the error text names the condition and contains that position or id.",
 ["inputs","configurations"],"all failing inputs and registries within the explored space",
 "Tests check the error of some tens of failing inputs; the position must be right for every failing input and start position.",
 ["src/error.rs","src/decoding_sci.rs","src/compacts.rs","src/special_types.rs"],
 [("ParserError / RegistryError construction and Display","src/error.rs"),("pick_variant, decode_str, find_compact, StableLength","src/decoding_sci.rs")],
 ["ParserError, RegistryError, SignableError Display"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
