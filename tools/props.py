"""Single source of the property list and the check metadata."""
TECH = "abstract interpretation of the compiled MIR with bit-level symbolic inputs (static dataflow, no execution, no solver)"
NOTE = ("Decides every listed obligation on the MIR of the current tree for all values of the symbolic inputs; obligations the "
        "analysis cannot decide are reported in the evidence and do not alarm. Trusts rustc's MIR and the std/dependency models in sa/models.py.")
PROPS = []


def P(id, title, statement, quant, why, files, mech, over=("inputs",), tech=TECH, note=NOTE, na=None, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                      over=list(over), tech=tech, note=note, na=na, observe=list(observe)))


M = "src/core/matter/mod.rs"
MT = "src/core/matter/tables.rs"
I = "src/core/indexer/mod.rs"
IT = "src/core/indexer/tables.rs"
C = "src/core/counter/mod.rs"
CT = "src/core/counter/tables.rs"
U = "src/core/util.rs"

P("P05", "Qualified material round-trips exactly in text and binary",
  "For every primitive type, every defined derivation code and every raw value of that code's size, the qualified base64 and the qualified "
  "binary form are exactly the CESR encoding (code, size characters, zero pad or lead, raw), the binary form is the base64 decoding of the text, and the reported full size "
  "is the text length. Decoding either form yields a value with the same code, raw material and qualified forms. Raw material beyond a fixed-size code's size is cut off.",
  "all raw byte values of each of the 50 derivation codes, every implementing type; variable-size codes for representative sizes including the short/long boundary",
  "Tests encode and decode one hand-picked value for a few codes; an error confined to one code, one pad size or one bit position passes them.",
  [M, MT, U], [("encode/decode of qualified material", M), ("code size table", MT), ("base64 integer helpers", U)],
  observe=["qb64", "qb64b", "qb2", "raw", "code", "full_size"])
P("P06", "Malformed qualified material is refused, never accepted or crashed on",
  "Decoding text or binary material whose pad bits or lead bytes are not all zero, whose code is undefined, which is shorter than its code requires, or which contains a "
  "character outside the base64url alphabet returns an error; it never yields a value and never panics. Material following a complete primitive does not influence the decoded value.",
  "every code, every pad/lead bit pattern other than zero, every truncation length, every undefined code of the neighbouring code space, all other bits arbitrary",
  "Tests try one or two malformed strings; the refusal must hold for every code, every bit of padding and every cut position.",
  [M, MT, U], [("text and binary decoders", M), ("hard-size lookup", MT)], observe=["new_with_qb64", "new_with_qb2", "new_with_code_and_raw"])
P("P07", "Indexed signatures round-trip exactly, including both indices",
  "For every indexed-signature code, every representable index and other index and every raw signature, the text and binary forms are exactly the CESR indexed encoding and decoding either "
  "form restores code, raw material, index and other index. A code without room for a separate other index carries the index as other index (or none for current-list-only codes).",
  "every code, all index and other-index values, all signature bytes",
  "Tests use a handful of indices below 64 and mostly one signature; wide indices and dual-index codes are sampled once or never.",
  [I, IT, U], [("indexed encode/decode", I), ("indexer size table", IT)], observe=["qb64", "qb2", "index", "ondex", "raw", "code"])
P("P08", "Unrepresentable indices and malformed indexed material are refused",
  "Constructing, or encoding in text or binary, an indexed signature with an index or other index its code cannot represent is refused, as is any other index on a current-list-only code and a differing "
  "other index on a code without room for one. Decoding indexed material with non-zero padding, an undefined code, a foreign character or missing material returns an error and never panics.",
  "every code, every oversized index bit length, every truncation, every single pad bit, arbitrary remaining content",
  "Tests check a few out-of-range values on one code; the limits differ per code and per form.",
  [I, IT, U], [("range checks in constructor and encoders", I), ("indexed decoders", I)], observe=["new_with_code_and_raw", "qb64", "qb2", "new_with_qb64", "new_with_qb2"])
P("P10", "Count codes encode and decode every representable count exactly",
  "For every count code and every count that fits its soft part, construction, text form and binary form follow the CESR counter layout and decoding restores code and count. Counts that do not fit, "
  "undefined count codes, foreign characters and truncated material are refused with an error and never panic.",
  "every count code, all counts up to 30 bits, every truncation and undefined neighbouring code",
  "Tests use a few small counts; multi-character counts and all code/form combinations are not sampled.",
  [C, CT, U], [("counter encode/decode", C), ("counter tables", CT)], observe=["new", "qb64", "qb2", "count", "code", "count_as_b64"])
P("P11", "Typed primitives hold only their permitted derivation codes",
  "Every typed primitive (verifier, digest, signature, signer, salt, sequence number, number, date-time, text, path, prefix, self-addressing identifier, indexed signature) can be built from raw, text bytes, "
  "text or binary material exactly when the code carried by that material is one the type permits, whatever code argument accompanies it; the value reports that code and raw material. All other codes are refused with an error.",
  "every (type, derivation code, input form, code argument) with all raw byte values",
  "Tests try one foreign code for some types, usually through one constructor; the code filter exists once per type and form.",
  ["src/core/verfer.rs", "src/core/diger.rs", "src/core/cigar.rs", "src/core/signer.rs", "src/core/salter.rs", "src/core/seqner.rs", "src/core/number.rs", "src/core/dater.rs",
   "src/core/bexter.rs", "src/core/pather.rs", "src/core/prefixer.rs", "src/core/saider.rs", "src/core/siger.rs"],
  [("validate_code in each primitive", "src/core/*.rs")], observe=["new", "code", "raw"])
P("P12", "All constructor forms of a primitive agree and honour their arguments",
  "For every typed primitive and permitted code, new_with_raw, new_with_qb64b, new_with_qb64 and new_with_qb2 given the same material yield the same code, raw material and qualified forms, with the extra arguments "
  "(verifier, index, other index, transferability, tier) in effect. A constructor named after another argument (bext, path, dts, num, numh, sn, snh, thold, limen, sith, defaults) does exactly what new does when given only that. When several forms are supplied to new, raw takes precedence over text bytes, text bytes over text and text over binary.",
  "every type, permitted code, constructor and raw value; every pair of forms",
  "Tests construct each type through one or two forms; a swapped or dropped argument in one convenience constructor is invisible.",
  ["src/core/verfer.rs", "src/core/cigar.rs", "src/core/signer.rs", "src/core/siger.rs", "src/core/salter.rs", "src/core/number.rs", M],
  [("new_with_* constructors", "src/core/*.rs"), ("precedence of forms", M)], observe=["new_with_raw", "new_with_qb64b", "new_with_qb64", "new_with_qb2"])
P("P13", "Keys and signatures use the suite their code names",
  "For every seed code, transferability and seed value, the signer's verifier holds the public key that the code's suite derives from exactly those seed bytes, under that suite's (non-)transferable code, and sign_unindexed yields that suite's "
  "signature over exactly the given bytes under that suite's signature code together with the signer's verifier. Generated seeds come from the same suite.",
  "all seed bytes and messages, three suites, both transferabilities, all input forms",
  "Tests sign one message with one key per suite; a confusion of suites, codes or of key and message for other inputs passes.",
  ["src/core/signer.rs", "src/crypto/sign.rs"], [("suite dispatch", "src/crypto/sign.rs"), ("verifier derivation and sign_unindexed", "src/core/signer.rs")],
  observe=["verfer", "sign_unindexed"])
P("P14", "Indexed signing selects the code the indices call for",
  "sign_indexed carries exactly the given index and, unless only the current list is used, the given other index (the index itself when absent), under the small code when everything fits one character and both indices are equal, the "
  "current-only code when asked for, and the big code otherwise; the signature is the seed's suite's signature over exactly the given bytes. Indices that no code of the suite can carry are refused.",
  "all index pairs up to 32 bits by size class (symbolic within a class), current-only or not, three suites, all seeds and messages",
  "Tests use a few index pairs with one suite; the class boundaries (63/64, 4095/4096) and equal/different combinations per suite are not covered.",
  ["src/core/signer.rs", IT], [("code selection in sign_indexed", "src/core/signer.rs")], observe=["sign_indexed", "index", "ondex", "code"])
P("P15", "A digest is the named algorithm over exactly the given bytes",
  "For every digest code and every input, a digest constructed from bytes holds the output of the named algorithm at the named length over exactly those bytes, under that code; Blake3-256 is used when no code is named and any other code is refused.",
  "all byte strings, all nine digest codes, the default, and every other derivation code",
  "Tests hash one fixed string for some algorithms; two swapped algorithms of equal length or a truncated input pass for others.",
  ["src/core/diger.rs", "src/crypto/hash.rs"], [("algorithm dispatch", "src/crypto/hash.rs"), ("construction from bytes", "src/core/diger.rs")], observe=["new_with_ser", "code", "raw"])
P("P16", "Signature verification never fails open",
  "For every verifier code and all keys, signatures and messages, verify answers true only when the code's own suite accepts exactly this signature over exactly this message under exactly this key; unparsable keys or signatures, signatures of the wrong length "
  "and rejected signatures yield false or an error, never true and never a panic; an accepted signature yields true.",
  "every verifier code and constructor form, all key/signature/message bytes, every combination of success and failure of key parsing, signature parsing and verification, every path of the code",
  "Tests check a good signature and one corrupted one; an early return or swallowed error on another path answers true only for inputs no test has.",
  ["src/core/verfer.rs", "src/crypto/sign.rs"], [("verify", "src/core/verfer.rs"), ("suite verification", "src/crypto/sign.rs")], observe=["verify"])
P("P17", "Digest verification and comparison are exact",
  "For every digest code, verify answers true exactly when the held digest equals the named algorithm's digest of exactly those bytes, in every byte. compare answers true for an identical digest, false for another digest of the same code, and "
  "for a digest of another code true exactly when both digests verify against the bytes; with neither digest it is refused.",
  "every digest code (pair), every byte position of a wrong digest, all other bytes arbitrary",
  "Tests compare one right and one wrong digest; a comparison that skips bytes or one of the two cross-algorithm verifications passes.",
  ["src/core/diger.rs", "src/crypto/hash.rs"], [("verify and compare", "src/core/diger.rs")], observe=["verify", "compare"])
SD = "src/core/saider.rs"
SZ = "src/core/sadder.rs"
P("P18", "Self-addressing identifiers bind the whole content of a message",
  "For every digest code and message shape, saidify fills the identifier field with the named algorithm's digest of the message's own serialization in which that field holds '#' place holders of the identifier's length, "
  "any version string carries the exact size, and ignored labels are left out; nothing else of the message changes. verify answers true exactly for the message the identifier was made for and false after any alteration of a value, "
  "a label, the order of labels, the identifier field (when prefixed) or the version (when versioned). Non-digest codes, missing labels and data that is not a map are refused, never a panic.",
  "every digest code, message shapes covering nesting, label position, versioned or not; texts and digests unknown bytes; every single alteration of each shape",
  "Tests saidify a few fixed messages and verify them unaltered; an identifier that fails to cover one field or that depends on a stale size passes.",
  [SD, SZ, "src/crypto/hash.rs"], [("saidify and derive", SD), ("verify", SD), ("sizeify", "src/core/common.rs")], observe=["saidify", "verify", "new", "qb64"])
P("P21", "Version strings are written and read exactly and refuse what does not fit",
  "versify writes identifier, version, serialization kind and size in the fixed 17-character layout for every version nibble and 24-bit size and refuses larger ones, unknown identifiers and unknown kinds; deversify and sniff return exactly the identifier, version, "
  "kind and size written there (sniff: wherever a message may place it in its first 12 bytes). Texts in any other layout, unknown kinds, unknown identifiers (deversify) and messages too short to sniff are refused with an error, never a panic.",
  "both identifiers, all version nibbles, all 24-bit sizes, every start position, every single-character corruption",
  "Tests use one version and a few sizes; digit order, width or case errors at other sizes and shifted positions pass.",
  ["src/core/common.rs"], [("versify, deversify, sniff", "src/core/common.rs"), ("layout constants", "src/core/common.rs")], observe=["versify", "deversify", "sniff"])
P("P22", "Message serialization is canonical and its stated size is exact",
  "to_json writes every value compactly as standard JSON, object fields in insertion order and text escaped as RFC 8259 requires. sizeify changes nothing of a message except its version string, which states the exact byte length of the resulting "
  "serialization; identifier, version and kind are preserved. Messages without a leading well-formed version string, with an unsupported version or kind, are refused.",
  "all value shapes of bounded depth; unknown integers, texts and escapes; both identifiers; all message lengths of those shapes",
  "Tests serialize small fixed messages; an escape, ordering or size error for other content or other lengths passes.",
  ["src/data.rs", SZ, "src/core/common.rs"], [("to_json", "src/data.rs"), ("sizeify", "src/core/common.rs")], observe=["to_json", "sizeify"])
P("P27", "Numbers and sequence numbers are exact over their whole range",
  "Every unsigned number of up to 128 bits, given as integer, hexadecimal text or qualified material, is held big-endian in the smallest permitted number code (sequence numbers always in the 16-byte code) and is read back as exactly that number and its "
  "lower-case hexadecimal; the positivity test follows the number. Text that is not a hexadecimal number of at most 128 bits and other codes are refused.",
  "every position of the highest set bit with all lower bits unknown, every constructor form, every material code",
  "Tests use a few small numbers; the code boundaries (2^16, 2^32, 2^64) and high bits are not sampled in every form.",
  ["src/core/number.rs", "src/core/seqner.rs"], [("code selection and conversion", "src/core/number.rs"), ("sequence numbers", "src/core/seqner.rs")],
  observe=["num", "numh", "sn", "snh", "positive", "inceptive", "code", "raw"])
P("P28", "Date-times survive their qualified encoding unchanged",
  "A date-time of 32 characters in ISO-8601 microsecond form with zone offset is held exactly, with ':', '.' and '+' mapped to 'c', 'd' and 'p', and given back exactly as text and bytes, from the text and from every material form. "
  "Texts that are too short, too long, or hold characters that cannot be encoded are refused. Made of nothing, it holds the moment the clock shows, in that form.",
  "every character at every position of the layout, both offset signs, every form",
  "Tests round-trip two fixed stamps; a wrong mapping for another character or a negative offset passes.",
  ["src/core/dater.rs"], [("character mapping", "src/core/dater.rs")], observe=["dts", "dtsb", "qb64"])
P("P29", "Texts and paths keep their elements, and paths resolve exactly or refuse",
  "A text primitive holds exactly the given base64url text and gives it back from every form. A path primitive holds exactly its elements and gives them back; rooting joins root and path, stripping removes exactly a leading root and starts_with "
  "compares element by element. Resolving a path in a message gives exactly the part addressed by name or position; a step that does not exist is refused, never a panic. tail gives an embedded identifier or the JSON of the embedded part, "
  "refusing anything else. Foreign characters and non-scalar elements are refused.",
  "all text lengths 1..24 with unknown base64url characters (first not 'A'), path shapes, all steps of a nested message and neighbouring invalid ones",
  "Tests use a few fixed texts and paths; padding classes, numeric steps into maps and root/strip with repeating elements are hardly sampled.",
  ["src/core/bexter.rs", "src/core/pather.rs"], [("text codec", "src/core/bexter.rs"), ("root, strip, resolve, tail", "src/core/pather.rs")], observe=["bext", "path", "root", "strip", "starts_with", "resolve", "tail"])
P("P35", "Equality is exactly sameness of content and copies are complete",
  "Two primitives, signatures, counters, thresholds, messages, values or versions of one type are equal exactly when their content is the same: the same material given in any form (raw, text, binary, number, hexadecimal, path, fields, bytes) makes equal objects, "
  "and any difference in code, any byte of material, index, other index, key held with a signature, security tier, count, weights, field, field order of a message or kind of a value makes them unequal. "
  "A copy holds everything its original holds and equals it. Comparing and copying never panic; the same holds for the copies the javascript bindings make.",
  "19 types, all pairs of about 20 to 60 sample objects each, differing in one place; every form an object can be made from; unknown material for sameness and copies",
  "Tests compare a handful of objects that differ grossly; an ignored or half-compared part, or a part lost in copying, shows only for objects differing exactly there.",
  ["src/core", "src/data.rs", "wasm/src/primitives"], [("types and their comparison", "src/core/siger.rs"), ("values", "src/data.rs")], observe=["==", "!=", "clone"])
P("P40", "The data model keeps what it is given and reads JSON exactly",
  "Converting a scalar, text, array or map into a value and back returns exactly the original; converting to another kind is an error, never a panic for the fallible accessors. Indexing by name or position reads or replaces exactly the addressed element and "
  "leaves all others and their order unchanged, and never answers an absent element with another one. Displaying a value shows its JSON text. Reading JSON text gives exactly the value the text denotes, with fields in their order; malformed text is refused with an error, as is text shorter than the message size asked for. A literal written with the dat! macro is the value it spells: nested arrays and maps, entries in their order, the last of repeated names.",
  "every scalar bit pattern, every kind pair, every element of the sample shapes; JSON texts over all value forms and malformed variants",
  "Tests convert single sample values; sign, width, order and kind-confusion errors on other values pass.",
  ["src/data.rs", "src/core/common.rs"], [("conversions and indexing", "src/data.rs"), ("loads", "src/core/common.rs")], observe=["Value", "dat", "loads", "to_bool", "to_i64", "to_string", "to_vec", "to_map"])
P("P41", "Setters change exactly what they name",
  "After a setter of a primitive, an indexed signature or a message object, the accessor of that name gives exactly the value that was set, every other accessor gives what it gave before, and a second setting replaces the first. "
  "An object whose code, material, size and indices were set has the qualified text, bytes and binary of that content; content its code cannot have (material of another length, sizes and indices that do not fit) is refused by every qualified form with an error, never a panic. Setters never fail.",
  "every type and setter; unknown material and texts, lengths 0..200, numbers up to 2^32-1; every defined code for the rebuilt objects",
  "Tests never set a field of an object that already has another one; residues of the old content, couplings between fields and cut values pass.",
  ["src/core/matter/mod.rs", "src/core/indexer/mod.rs", "src/core/siger.rs", "src/core/serder.rs", "src/core/creder.rs"], [("setters", "src/core/*.rs")], observe=["set_code", "set_raw", "set_size", "set_index", "set_ondex", "set_ked"])
P("P20", "Signing thresholds are satisfied exactly by sufficient sets of indices",
  "A numeric threshold n is satisfied exactly when n is positive and at least n distinct indices are given; a weighted threshold exactly when in every clause the exact sum of the weights of the distinct indices reaches one, whatever their order or repetition; an index beyond the weights never helps. "
  "Integer, hexadecimal text, weight lists, JSON text and qualified text of a threshold mean the same, and thold, size, num, sith, limen and JSON give it back unchanged. Negative, oversized or empty thresholds, weights outside 0..1 or not of the form n, n/d, "
  "and clauses that cannot reach one are refused with an error, never a panic.",
  "all numeric thresholds below 2^63 (unknown below the highest bit); 26 weighted thresholds of one to three clauses with every subset of indices, permuted and repeated; about 100 malformed thresholds",
  "Tests satisfy a few thresholds with a few index sets; off-by-one clause offsets, inexact sums, duplicates and per-form differences show only for other sets.",
  ["src/core/tholder.rs"], [("threshold parsing", "src/core/tholder.rs"), ("satisfy", "src/core/tholder.rs")], observe=["satisfy", "thold", "size", "num", "sith", "limen"])
P("P34", "A message object's bytes, fields, size and identifier always agree",
  "A key event or credential built from bytes holds exactly the first bytes its version string declares and the fields they denote; built from fields it holds their canonical serialization, whose version string states its exact length, "
  "with nothing else changed; given several of bytes, fields and another object it is made of the bytes, else the fields, else a copy. raw, ked, size, version, ident, kind, saider, said, code and pretty always describe that one message. Wrong identifier field, short or malformed bytes, other protocols' identifiers, unsupported versions, missing or "
  "malformed version and identifier fields are refused with an error, never a panic. pretty never fails and gives the indented JSON cut to the asked length.",
  "both message types, every way of construction, message shapes covering nesting, escapes and multi-byte text; unknown texts, identifiers and digests; declared sizes around the real length",
  "Tests build a few fixed messages; stale sizes, trailing bytes, multi-byte texts and malformed inputs at the boundary are not sampled.",
  [SZ, "src/core/serder.rs", "src/core/creder.rs", "src/core/common.rs"], [("inhale and exhale", SZ), ("constructors", "src/core/serder.rs"), ("constructors", "src/core/creder.rs")],
  observe=["raw", "ked", "size", "version", "ident", "kind", "said", "pretty"])
P("P39", "Accessors of events and credentials report exactly the message's fields",
  "The keys, next digests, witnesses, thresholds, sequence and first-seen numbers, prefix and event class of an event, and issuer, schema, subject, status and chains of a credential, are exactly those its fields hold, in their order; "
  "establishment events are exactly icp, rot, dip and drt; absent optional fields give the documented empty answer and malformed ones an error, never a panic.",
  "both message types, every accessor, unknown keys, digests, numbers and texts; each field absent, of the wrong kind, malformed, with one and many elements",
  "Tests read a few fixed events; accessors mixing up fields, event types or list order on other events pass.",
  ["src/core/serder.rs", "src/core/creder.rs"], [("event accessors", "src/core/serder.rs"), ("credential accessors", "src/core/creder.rs")],
  observe=["verfers", "digers", "werfers", "tholder", "ntholder", "sn", "sner", "fner", "pre", "est", "issuer", "schema", "subject", "status", "chains"])
P("P19", "Identifier prefixes are derived from inception events and verify exactly them",
  "A prefix derived from an inception event (icp, dip, vcp) is the event's single key when its code is a key code (non-transferable codes only with empty or absent next keys, witnesses and anchors), and for digest codes the named digest of the event "
  "with both identifier fields filled with '#' place holders of the prefix's length and an exact size. The code is the one given or that of the event's own identifier, and must be allowed. verify answers true exactly for the key, or the event content, "
  "the prefix was derived from, also for the identifier field when prefixed. Everything else (wrong type, code, number or kind of keys, no event) is refused or false, never a panic.",
  "all 15 prefix codes, both ways to give the code, all incepting and other event types, field variants, unknown keys and texts; every single alteration of an event for every digest code",
  "Tests derive and verify a few fixed events; a forgotten field, a code mix-up or an unchecked alteration passes.",
  ["src/core/prefixer.rs", "src/core/common.rs", "src/crypto/hash.rs"], [("derive", "src/core/prefixer.rs"), ("verify", "src/core/prefixer.rs")], observe=["new", "verify", "code", "raw"])
P("P25", "Key stretching is exactly the tier's Argon2id profile of path and salt",
  "Stretching a salt gives Argon2id (version 0x13, one lane) of the path as password and the salt's material as salt, at the asked output length, with memory and passes 8/1 (min), 65536/2 (low), 262144/3 (med), 1048576/4 (high KiB/passes). "
  "The tier is min when temporary, else the one asked for, else the salt's own (low by default); defaults are an empty path and 32 bytes. Unknown tiers, lengths below four and failures of Argon2 are errors, never a key.",
  "every tier, tier source and temp flag, several paths (unknown characters) and lengths, unknown salt; Argon2 an uninterpreted function of all its inputs",
  "Only the cheap tier is tested; a weaker cost for another tier, swapped salt and path, or an ignored tier still gives keys and passes.",
  ["src/crypto/salt.rs", "src/core/salter.rs"], [("argon2 parameters", "src/crypto/salt.rs"), ("tier selection", "src/core/salter.rs")], observe=["stretch", "signer", "signers"])
P("P38", "Deterministic signers are derived along exactly their path and index",
  "signer stretches the salt along the given path to the 32-byte seed of the given code, with the given transferability, tier and temp; signers gives exactly count signers (default 1), the i-th derived along the path followed by start+i in lower-case "
  "hexadecimal, all with the same code, transferability, tier and temp. Codes that are no seed codes are refused.",
  "every seed code, transferability, tier source and temp flag; indices around every hexadecimal digit boundary; unknown salts and path characters",
  "Tests derive two or three signers with the defaults; an ignored argument, decimal index or off-by-one passes.",
  ["src/core/salter.rs", "src/core/signer.rs"], [("signer, signers", "src/core/salter.rs")], observe=["signer", "signers", "raw", "verfer"])
P("P26", "The javascript bindings give exactly what the wrapped methods give",
  "Every method of every javascript wrapper, for the same arguments in the same order, returns exactly what the wrapped method returns: the same primitive, text, bytes or answer, values as their JSON text, 128-bit numbers as two 64-bit halves that convert "
  "back to the same number, lists in order; it fails exactly when the wrapped method fails, as a javascript error, never a panic. The codex enumerations name the codes of the registry.",
  "all 190 wrapper methods of 15 types with representative and symbolic arguments (all raw bytes unknown), absent and present optional arguments, truncated material",
  "The bindings have no tests that run outside a browser; swapped arguments or a wrapper calling a sibling method compile and pass.",
  ["wasm/src/util.rs", "wasm/src/error.rs", "wasm/src/primitives/mod.rs", "wasm/src/primitives/codex.rs", "wasm/src/primitives/siger.rs"],
  [("wrappers", "wasm/src/primitives/mod.rs"), ("number and value conversion", "wasm/src/util.rs"), ("codex enumerations", "wasm/src/primitives/codex.rs")], observe=["wrapper methods"])
P("P01", "Names mean their registered codes and classes",
  "Every public constant of the codexes (matter, indexer, counter, text, number), message types, field labels, serialization kinds, protocols and security tiers is the code the CESR/KERI registry gives that name, in particular no two names share a code. "
  "A primitive is digestive exactly when its code names a digest and transferable exactly when its code does not name a non-transferable key; the sets of current-list-only and both-list indexed codes are exactly the registered ones.",
  "every public constant; every primitive type with every derivation code and all raw bytes; every indexed code",
  "Tests use some names in some calls; two swapped names are self-consistent within the library and only fail against other implementations.",
  [MT, IT, CT, "src/core/common.rs", M], [("code registries", MT), ("indexed code registry", IT), ("count code registry", CT), ("classes", M)], observe=["Codex", "digestive", "transferable", "has_code"])
P("P09", "Semantic versions and counts become exact base64 text or are refused",
  "A semantic version of parts up to 63, given as numbers or as dotted text (missing or empty parts are zero), becomes the three base64url characters of its parts in order. Parts above 63, more than three parts and text that is not a number are refused "
  "with an error, never a panic. The count of a counter is given as base64url text of exactly the asked length, zero-extended on the left.",
  "all part values as numbers (unknown bits), every part value per position as text, about 30 malformed texts; all counts per length class",
  "Tests convert a handful of versions; a wrong bound, a swapped part or a missing refusal at another value passes.",
  [C, U], [("semantic version conversion", C), ("base64 integers", U)], observe=["sem_ver_to_b64", "sem_ver_str_to_b64", "count_as_b64"])
P("P23", "Seeds and salts are wiped from memory when they are let go",
  "When a signer or a salter is dropped the bytes of its seed or salt are overwritten, all of them. Constructing one (from raw material, text, bytes, binary or nothing), encoding it, signing with it, stretching and deriving signers leaves behind no buffer that "
  "holds the secret: every working copy the library makes on a successful call is wiped before it is released, or handed to the caller.",
  "every constructor form, encoder, signing and derivation call of each suite; secret bits unknown; every place dropped on the way",
  "Freed memory is not observable through the API; a forgotten wipe passes every functional test.",
  ["src/core/signer.rs", "src/core/salter.rs", "src/core/matter/mod.rs", "src/core/util.rs"], [("seed owner", "src/core/signer.rs"), ("salt owner", "src/core/salter.rs"), ("codec copies", "src/core/matter/mod.rs")],
  observe=["new", "qb64", "qb64b", "qb2", "sign_unindexed", "sign_indexed", "stretch", "signer", "drop"],
  tech="taint analysis by abstract interpretation of the drop-elaborated MIR: the abstract content of every released place is inspected for the secret's bits",
  note="Calls that fail are not covered, nor copies inside dependencies, moved stack values and reallocated buffers.")
P("P24", "Generated seeds and salts are fresh output of the system's generator",
  "A signer or salter constructed without material holds exactly the bytes just drawn from the operating system's random generator, every byte of the full length (32 and 16), under the asked code; each construction draws anew, a weak key is discarded and "
  "drawn again, and signature nonces come from no other generator.",
  "every generating constructor, seed code, transferability and tier; generator output unknown; zero, one and two weak keys first",
  "Random output cannot be checked by comparing values; a partly filled, reused or predictable seed looks like any other.",
  ["src/crypto/csprng.rs", "src/crypto/sign.rs", "src/core/salter.rs", "src/core/signer.rs"], [("random bytes", "src/crypto/csprng.rs"), ("key generation", "src/crypto/sign.rs")],
  observe=["new", "new_with_defaults", "raw"])
P("P30", "Operations have no hidden inputs or effects",
  "The result of every public operation depends on nothing but its arguments, and it changes nothing but its receiver: none reads the clock (but date-times created without a stamp), randomness (but signers and salters), the environment, files, the network "
  "or hash order (but of a map it is given), none writes anywhere, and none keeps or reads state that outlives the call. Every public type can be sent to and shared between threads.",
  "every public function, every path of its call graph; every static item; every public type",
  "A hidden cache, counter or clock gives right answers to a test that asks once; it shows only over histories of calls, across threads or processes.",
  ["src/core", "src/crypto", "src/data.rs"], [("the whole call graph", "src/lib.rs"), ("randomness", "src/crypto/csprng.rs"), ("clock", "src/core/dater.rs")], observe=["every public function"],
  tech="effect analysis of the monomorphic call graph and of static items and types, from the compiler's MIR",
  note="Effects are recognised by the names of the std and dependency functions called directly from the crate's code; effects hidden inside dependencies are not seen.")
