HOW = {
    'P05': ('All 8+ `Matter` implementors × 50 codes; raw material is one named bit per raw bit; encode, decode text, decode binary, and compare bit for bit with the layout of `sa/lib.py`. Variable-size codes at representative sizes, including each lead size and the small/large boundary (raw 12285 bytes). Lengths and counts at and around every integer constant the files concerned mention (`lib.around`).',
            'raw lengths of variable-size codes are sampled, not quantified; thorough adds lengths'),
    'P06': ('Symbolic text/binary with one pad bit set (all others free), one foreign character at a position, cut at each length, code characters replaced by every undefined neighbour; the outcome must be `Err` on every path; trailing material is symbolic and must not occur in the value.',
            'cut positions and foreign characters are enumerated for one type in full, for the others at the ends'),
    'P07': ('Each code × index class (number of significant sextets, remaining bits free) × other-index class; construct, encode, decode.',
            'classes cover every representable value'),
    'P08': ('Oversized index classes per code (up to 32 bits), forbidden/differing other index, and the malformations of P06 for the indexed tables.',
            ''),
    'P10': ('Each counter code × count class, every form; oversize, truncation, undefined codes. `count_as_b64` at every width that holds the count.',
            ''),
    'P11': ('(type × all codes × raw/qb64b/qb64/qb2 × code argument): accepted exactly when the permitted-code table of the specification says so.',
            ''),
    'P12': ('Constructors named after one content argument are interpreted beside new given only that argument; kinds of outcome and objects must be the same; so are the constructors named after a form of the material, given about 30 mistreated materials each (blanks, line ends, lengths, foreign codes). Every `new_with_*` of every type, with its extra arguments, against `new` semantics; every pair of forms with *different* material, to see which one wins.',
            ''),
    'P13': ('Crypto as uninterpreted functions: the verifier must hold pub(suite, seed) under the right code; the signature term must be sig(suite, seed, message).',
            ''),
    'P14': ('(seed code × only × index class × ondex class), all boundary classes; code, indices and signature term compared with the selection table.',
            ''),
    'P15': ('Hash functions uninterpreted: raw must be the term H(algorithm, length, all the bytes).',
            ''),
    'P16': ("Trace partitioning over success/failure of key parse, signature parse and verification; on every path the answer must be `true` iff the suite's verify of exactly (key, message, signature) succeeded. Also under assumptions about the data: empty message, weak key, etc. Degenerate keys, signatures and messages (zeros, ones, halves) where the suite rejects.",
            "the suites' own verify functions are trusted"),
    'P17': ('The digest term is a constant of unknown bits; the held digest agrees except for one symbolic bit per byte position; the answer must follow. Cross-code compare partitions on both comparisons. Digests near the true one (`digs.near`): one bit flipped, a letter of the text in the other case, halves, reversed.',
            ''),
    'P18': ('Ideal-hash mode: H is injective on serializations; message shapes × every single alteration; the serialization that enters H is compared with the oracle text (place holders, size). Identifiers near the true one (`digs.near`). Texts a careless normalisation changes (`lib.ODD`: NUL, blanks, case, non-ASCII, escapes, number look-alikes) enter as they are.',
            'shapes are enumerated; contents are unknown'),
    'P21': ('Nibbles and size digits are unknown bits; every start position; every single-character corruption.',
            ''),
    'P22': ('Value shapes of bounded depth with unknown scalars and texts against RFC 8259 text. Lengths and counts at and around every integer constant the files concerned mention (`lib.around`).',
            'depth 3'),
    'P27': ('128 highest-bit classes × every constructor.',
            ''),
    'P28': ('The clock is a modelled input showing eight moments (leading zeros, whole seconds, sub-microsecond digits, year ends). Every position × every character class. Texts a careless normalisation changes (`lib.ODD`: NUL, blanks, case, non-ASCII, escapes, number look-alikes) enter as they are.',
            ''),
    'P29': ('Lengths 1..24 unknown characters; path shapes; all steps in a nested message. Lengths and counts at and around every integer constant the files concerned mention (`lib.around`).',
            "texts that start with 'A' and have length divisible by four are not claimed: CESR text padding is ambiguous there"),
    'P40': ('A witness crate (`witness/lib.rs`, about 75 literal forms of dat!) is type-checked against the tree and its MIR analysed together with the crate\'s, never run: each literal must be the value it spells, for unknown embedded scalars and texts. Conversions over unknown scalars; JSON texts over all value forms; malformed variants. Lengths and counts at and around every integer constant the files concerned mention (`lib.around`). Numbers at every edge of the integer and floating-point ranges. Texts a careless normalisation changes (`lib.ODD`: NUL, blanks, case, non-ASCII, escapes, number look-alikes) enter as they are.',
            ''),
    'P41': ('Every setter of every type is interpreted on an object of unknown material and every accessor compared before and after, once and after another setting; then code, material, size and indices are all set to every defined code and the qualified forms compared with the reference layout. Setters outside the public traits (set_verfer) are covered through the constructors (P12).',
            ''),
    'P20': ('Numeric: highest-bit classes. Weighted: 26 thresholds × every subset of indices, permuted and repeated (index sets are concrete, arithmetic exact rationals). Lengths and counts at and around every integer constant the files concerned mention (`lib.around`). Exact numbers with hexadecimal letters.',
            'weighted thresholds are enumerated, not quantified'),
    'P34': ('Message shapes × ways of construction, declared size around the real size. Lengths and counts at and around every integer constant the files concerned mention (`lib.around`).',
            ''),
    'P39': ('Every accessor on events with unknown keys, digests, numbers; each field absent/malformed. Lengths and counts at and around every integer constant the files concerned mention (`lib.around`).',
            ''),
    'P19': ('As P18 for prefixes: event type × code × field variants × alterations. Prefixes near the true one (`digs.near`).',
            ''),
    'P25': ('Argon2 uninterpreted over algorithm, version, costs, password, salt, length; every tier × source × temp. Texts a careless normalisation changes (`lib.ODD`: NUL, blanks, case, non-ASCII, escapes, number look-alikes) enter as they are.',
            'Argon2id itself trusted'),
    'P38': ('Indices at digit boundaries; seed terms as in P25. Lengths and counts at and around every integer constant the files concerned mention (`lib.around`). Texts a careless normalisation changes (`lib.ODD`: NUL, blanks, case, non-ASCII, escapes, number look-alikes) enter as they are.',
            ''),
    'P26': ('190 wrapper methods analysed in the wasm crate and in the core crate on the same abstract arguments; results compared structurally.',
            'a method with no generic recipe is listed in the evidence; wasm-bindgen glue is trusted'),
    'P01': ('Every codex constant, ilk and identifier read from the type-checked program and compared with the registry table in `sa/spec.py`; `map`/`has_code`/digestive/transferable answers evaluated abstractly per code.',
            'the registry is the checker table, written from the CESR/KERI registries'),
    'P09': ('`sem_ver_to_b64` on parts of unknown bits below 64 and with the high bits set; text forms enumerated; count text as symbolic sextets against the big-endian digits.',
            'malformed text is enumerated'),
    'P24': ('The generator is an uninterpreted source: each draw returns fresh unknown bytes. The seed/salt held afterwards must be exactly one whole draw of the right length, from OsRng; under the assumption "weak", another draw must follow.',
            'the quality of the operating system generator is trusted'),
    'P30': ('No interpretation: call graph over MIR (trait calls resolved to every implementor), effect sets propagated to each public function; statics and their types; auto traits from the compiler.',
            'effects inside dependencies are recognised by name'),
    'P23': ('The secret is 128/256 named bits. In the drop-elaborated MIR every `drop` terminator, buffer `clear`/`truncate` and (for byte arrays written through a mutable borrow) function return is an obligation: the abstract value released must hold fewer than 32 of the secret bits, unless its type wipes itself (`Zeroizing`, key types, the two owners). The owners\' own drop code is interpreted and must zeroize all the secret bits.',
            'success paths; moved stack values, reallocation and dependencies are out of reach'),
    'P35': ('Every type with equality: two objects of unknown content, compared component by component (same content must be equal, each differing component must be unequal), plus clones and `Default`s.',
            'content of dependency types (regular expressions, big numbers) is compared structurally'),
}
