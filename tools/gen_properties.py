#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text can be reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

M = "src/core/matter/mod.rs"; MT = "src/core/matter/tables.rs"; IX = "src/core/indexer/mod.rs"; IT = "src/core/indexer/tables.rs"
CN = "src/core/counter/mod.rs"; CT = "src/core/counter/tables.rs"; UT = "src/core/util.rs"

p("C01", "Qualified material encodes per CESR tables and round-trips in every form",
  "For every derivation code of the CESR master code table and every raw value of a length that code allows, building a primitive from (code, raw) yields exactly the text (qb64/qb64b) and binary (qb2) encodings the CESR specification prescribes, and rebuilding from any of those three forms gives back the same code, raw bytes, size and full size. Variable-size codes pick the lead-byte variant and the small or large code that the raw length requires, right up to the size limits, and too-short or oversize raw or unknown codes are rejected. The codes the library publishes under names are those of the specification's tables.",
  ["inputs"], "all 53 codes x {text, text bytes, binary}, all raw lengths around every boundary (0.. all residues mod 3, 4096-quadlet promotion, 64^4 limit), basis raw patterns that hit every byte/bit position",
  "The unit tests encode a few dozen fixed vectors; code/lead/pad arithmetic differs per code, per length mod 3 and at the promotion boundary (12285/12286 bytes), which no test reaches.",
  [M, MT, UT], [("infil/exfil/binfil/bexfil", M), ("sizage/hardage/bardage", MT), ("variable size code promotion", M + " new_with_code_and_raw")],
  ["Matter::new*", "qb64()", "qb64b()", "qb2()", "full_size()"])
p("C02", "Only canonical encodings are accepted",
  "If a primitive, indexed signature or counter is accepted from a text or binary input, then re-encoding it in the same form reproduces exactly the leading full-size part of that input: there is no second spelling of any primitive. In particular non-zero pad bits or lead bytes, base64 padding characters, characters outside the URL-safe alphabet, unknown codes and non-canonical trailing bits are rejected, in text and in binary alike.",
  ["inputs"], "all 1..4-character texts and all 1..3-byte binaries completely; for every code the neighbourhood of valid encodings under all single and all pairs of character/byte/bit deviations at the code, soft, pad and tail positions",
  "Tests try a handful of malformed strings; malleability needs one particular character or bit in one particular code, which sampling does not find.",
  [M, IX, CN, UT], [("prepad / lead byte checks", M), ("prepad / lead byte checks", IX), ("base64 decode", UT)],
  ["new_with_qb64", "new_with_qb64b", "new_with_qb2"])
p("C03", "Streams compose: concatenation parses back, in text and binary",
  "Concatenating the text forms of any sequence of primitives, indexed signatures and counters and reading them back one by one, each consuming its full size, yields the same sequence; so does the concatenation of their binary forms, with three quarters of each full size. Each binary form is the base64url decoding of the corresponding text form, so whole streams convert between domains without parsing, and whatever follows a primitive never changes how it is read.",
  ["inputs", "histories"], "all ordered sequences of up to 3 (quick) or 4 elements over an alphabet with at least one member of every code class of the three tables, plus every element followed by every class of trailing material",
  "Composability is a statement about sequences; every existing test parses one primitive standing alone.",
  [M, IX, CN], [("trim to full size", M), ("trim to full size", IX), ("full_size", CN)], ["full_size()", "qb64()", "qb2()"])
p("C04", "Truncated material is rejected, never misread",
  "Every strict prefix of the text or binary encoding of a primitive, indexed signature or counter, including the empty one, is rejected with an error. It never panics, and is never accepted as a shorter or different value of the same kind.",
  ["inputs", "fault_sequences"], "every cut point of valid encodings of every code in the three tables, in text and binary (stream cut at any byte)",
  "The tests cut two or three encodings at one or two places; missing shortage checks show only for particular codes and cut points.",
  [M, IX, CN], [("shortage checks", M), ("shortage checks", IX), ("shortage checks", CN)], ["new_with_qb64", "new_with_qb64b", "new_with_qb2"])
p("C05", "Untrusted primitive input never panics",
  "No text, byte string or raw value handed to any constructor of any primitive type (including non-UTF-8 bytes and multi-byte characters, unknown or partial codes, and empty input) makes the library panic: it returns a value or an error. When it returns a value, every read accessor of that value also returns without panicking.",
  ["inputs"], "all texts of length <=3 over the full base64url alphabet plus '=', '#', 2-, 3- and 4-byte characters, all binaries of <=2 bytes (3 in thorough), and all short continuations after every code prefix, for all 13 primitive types",
  "Tests exercise anticipated errors; a slice out of range or on a character boundary needs one particular short or multi-byte input.",
  [M, IX, CN, "src/core"], [("length checks before slicing", M), ("length checks before slicing", IX), ("length checks before slicing", CN)], ["every public constructor and accessor"])
p("C06", "Indexed signatures encode index and ondex per the code table",
  "For every indexed code and every index/other-index pair the code allows, an indexed signature carries exactly those values through its text and binary forms and back, encoded as the CESR indexer table prescribes. Pairs the code cannot carry (out-of-range index or ondex, an ondex on a current-only code, differing index and ondex on a code with one soft part) are rejected on construction and on parsing.",
  ["inputs"], "all 19 indexed codes; all index x ondex pairs on 1-character codes (64x64 and beyond the limit), all 4096+ pairs on boundary sets for 2-character codes, boundary lattices for 3- and 4-character codes, in all three forms",
  "Tests use index 0 or a few; limits, the ondex slot width and the both-same rule depend on the code's soft size and other size.",
  [IX, IT], [("index bounds", IX + " new_with_code_and_raw"), ("infil/exfil/binfil/bexfil", IX), ("sizage", IT)], ["Siger/Indexer constructors", "index()", "ondex()", "qb64()", "qb2()"])
p("C07", "Counters encode counts and versions exactly",
  "For every count code and every count in range, a counter yields exactly the spec's text and binary encoding and parses back to the same code and count; counts beyond the code's range, unknown codes and unparsable counts are rejected. Counts given as base64 text mean the same number as counts given as integers, and a protocol version counter round-trips every major.minor.patch triple in range.",
  ["inputs"], "all 15 codes x all counts 0..=4095 plus the first values beyond (every count up to 64^5-1 at boundaries and single-digit lattice for large codes); all version triples on a boundary lattice (all 64^3 in thorough)",
  "Tests encode counts such as 1, 1024 and 8193 for a few codes; off-by-one at limits or in one digit position is not visible there.",
  [CN, CT, UT], [("count bounds", CN), ("semver text", CN), ("sizage", CT)], ["Counter::new*", "count()", "count_as_b64()", "qb64()", "qb2()"])
p("C08", "A digest verifies exactly the data it was computed over",
  "For each of the nine digest codes, digesting data gives the named algorithm's output over exactly that data, and verifying a digest against data succeeds when and only when the data is the data it was computed over. Comparing two digests succeeds exactly when both are digests of the given data (whatever their algorithms) or are identical, and codes that name no digest algorithm are rejected.",
  ["inputs"], "9 codes x all lengths 0..=300 plus hash block boundaries x contents; all single-bit flips of data and digest; all 9x9 comparison pairs over same/different data; all non-digest codes",
  "Tests check each algorithm on one short message, and verify one matching and one failing case.",
  ["src/core/diger.rs", "src/crypto/hash.rs"], [("code to algorithm dispatch", "src/crypto/hash.rs"), ("verify/compare", "src/core/diger.rs")], ["Diger::new_with_code_and_ser", "verify", "compare*"])
p("C09", "Signatures verify exactly for the signed message and key, with the right code",
  "A signature made by a signer verifies under that signer's verification key over the signed message and fails for any other message, any altered signature bit, any other key, and any key of a different suite. Signing without an index yields an unindexed signature of the suite's code; signing with an index yields an indexed signature whose code is the smallest that carries the requested index, ondex and current-only choice, with those values, and whose verification key is attached.",
  ["inputs"], "3 suites x {transferable, not} x messages of length 0..=130 and larger; every bit of signature, key and message flipped; all (only, index, ondex) triples over 0..=130 and boundaries up to and beyond 4095",
  "Tests sign one message with a few indices; code selection branches on index<=63, ondex presence and equality, and only.",
  ["src/core/signer.rs", "src/core/verfer.rs", "src/core/siger.rs", "src/core/cigar.rs", "src/crypto/sign.rs"], [("code selection", "src/core/signer.rs"), ("dispatch", "src/crypto/sign.rs")], ["Signer::sign_*", "Verfer::verify"])
p("C10", "Signers derive the right key pair and code, and rebuild from their seed",
  "A signer built from a seed (raw, text or binary) always exposes the public key its suite derives from that seed, under the transferable or non-transferable code that was requested, and rebuilding it from its own exported seed gives the same key and signatures. Random signers produce seeds of the right size, and codes that are not seeds, invalid secret scalars and too-short seeds are rejected.",
  ["inputs"], "3 suites x transferability x a seed lattice (all-zero, all-one, one-hot in each of 256 bits, group order -1/0/+1) x 4 construction routes x all 50 codes",
  "Tests build each suite once from a fixed seed; transferability and suite are encoded by nested matches that each test samples at one point.",
  ["src/core/signer.rs", "src/core/verfer.rs", "src/crypto/sign.rs"], [("key generation and derivation", "src/crypto/sign.rs"), ("code mapping", "src/core/signer.rs")], ["Signer::new*", "verfer()"])
p("C11", "Salt stretching is deterministic, path-separated and tier-faithful",
  "The secret a salter stretches for (seed size, path, tier) equals Argon2id over exactly that salt and path with the tier's published cost parameters, and a signer derived from a salt has the seed size of the requested suite, the requested transferability and the key that seed implies. The derivation depends on every one of salt, path, tier and size and on nothing else, and stays the same across salters rebuilt from any encoding.",
  ["inputs", "configurations"], "salts x paths (empty, 1..64 chars, multi-byte) x codes x transferable x {temp, low; medium and high in thorough} against direct Argon2id; explicit tier overriding the salter's own",
  "Tests check a few golden vectors in temp mode; the real tiers' parameters are never exercised.",
  ["src/core/salter.rs", "src/crypto/salt.rs"], [("tier parameter table", "src/crypto/salt.rs"), ("stretch/signer", "src/core/salter.rs")], ["Salter::stretch", "Salter::signer", "Salter::signers"])
p("C12", "Typed primitives accept exactly their own code family",
  "Each typed primitive (verification key, digest, SAID, salt, sequence number, number, datetime, base64 string, identifier prefix, signer, indexed signature, ...) can be built from material whose code belongs to its family, and rejects well-formed material of every other code. This holds for every way of building it: from raw, text, text bytes and binary.",
  ["inputs", "configurations"], "12 types x all 50 matter codes (and 19 indexed codes) x 4 construction routes, full cross product",
  "Tests check one wrong code per type by one route; the code check is separate in each constructor.",
  ["src/core/verfer.rs", "src/core/diger.rs", "src/core/salter.rs", "src/core/seqner.rs", "src/core/number.rs", "src/core/dater.rs", "src/core/bexter.rs", "src/core/prefixer.rs", "src/core/saider.rs", "src/core/signer.rs", "src/core/siger.rs"],
  [("per-type code validation", "src/core/*.rs constructors")], ["new_with_qb64", "new_with_qb64b", "new_with_qb2", "new_with_code_and_raw"])
p("C13", "Thresholds are satisfied exactly when the weights say so",
  "A signing threshold is satisfied by a list of key indices exactly when the distinct valid indices reach the number, or for weighted thresholds when in every clause the exact rational weights of the indexed keys sum to at least one; repeated indices add nothing, order does not matter, a threshold of zero is never satisfied, and a list with an index outside a weighted threshold does not satisfy it. Its number, size, text, hex and encoded forms all describe the same threshold and rebuild it, and ill-formed thresholds (weights outside 0..1, clauses that can never reach one, malformed fractions such as with signs or separators, empty) are rejected.",
  ["inputs", "configurations"], "all numeric thresholds 0..=8 and boundaries, all weighted thresholds of up to 3 clauses x 3 weights over a set of 12 fractions, every index list of length <=4 incl. repeats and out-of-range (all subsets for larger), all construction routes",
  "Tests try about twenty thresholds with one or two index lists; the failing combinations (repeats, multi-clause offsets, exact sums such as 1/3+1/3+1/3) are combinatorial.",
  ["src/core/tholder.rs"], [("satisfy_numeric / satisfy_weighted", "src/core/tholder.rs"), ("limen/sith processing", "src/core/tholder.rs")], ["Tholder::new*", "satisfy", "sith", "limen", "thold", "size", "num"])
p("C14", "A SAID identifies exactly one document",
  "Saidifying a document with any digest algorithm, label and ignore list sets the label to the digest of the document with the label replaced by the right number of placeholder characters and ignored fields left out; it changes nothing else, is idempotent, and verifies. Any change to any other value, key or key order of the document, or to the SAID, makes verification fail; changes confined to ignored fields (that keep the stated size, when the document carries a version string) do not.",
  ["inputs"], "9 algorithms x a family of documents (all key orders of small maps, nested maps/arrays, unicode, numbers) x labels x ignore sets; all single-value, key, order and character tampering of each",
  "Tests saidify a handful of documents, mostly with one algorithm, and tamper with one of them.",
  ["src/core/saider.rs", "src/core/common.rs"], [("derive with dummy fill", "src/core/saider.rs"), ("sizeify", "src/core/common.rs")], ["Saider::saidify", "Saider::verify"])
p("C15", "Events and credentials load, re-serialize and size themselves faithfully",
  "Loading an event or credential from its serialization gives back exactly those bytes and the same key/value content, with the version string's size, kind and version, reading exactly size bytes and ignoring whatever follows; building it from key/values produces a serialization whose version string states its true length and whose digest is recomputable, and loading that serialization gives the same object. Accessors return the corresponding fields, and whenever altered bytes still load but to different content, that content no longer verifies against its SAID.",
  ["inputs", "histories"], "families of inception/rotation/interaction/delegation/receipt events and credentials over all combinations of present/absent fields, list sizes 0..3, both threshold kinds, trailing material of several kinds; every single-byte alteration of representative events",
  "Tests load a few literal events; size and trailing-material handling, absent fields and tampering are only sampled.",
  ["src/core/serder.rs", "src/core/creder.rs", "src/core/sadder.rs", "src/core/common.rs"], [("exhale/inhale", "src/core/sadder.rs"), ("accessors", "src/core/serder.rs")], ["Serder::new*", "Creder::new*", "raw()", "ked()", "size()"])
p("C16", "Version strings encode identity, version, kind and size unambiguously",
  "Formatting a version string for any identity, version, serialization kind and size and parsing it back yields the same four values, and the formatted string is always 17 characters of the fixed layout. Values that do not fit the layout, unknown identities and kinds, and every string deviating from the layout are rejected. Sniffing a serialization finds the version string wherever it legally starts and only there, whatever bytes follow.",
  ["inputs"], "all identities x kinds x major x minor 0..=17 x sizes at all hex-digit boundaries; all single-character substitutions, deletions and insertions of valid version strings; all sniff offsets 0..=24 with text and binary continuation",
  "Tests format and parse three or four strings.",
  ["src/core/common.rs"], [("versify/deversify/sniff/sizeify", "src/core/common.rs")], ["common::versify", "common::deversify", "common::sniff", "common::sizeify"])
p("C17", "Identifier prefixes derive from and verify against exactly their inception",
  "Deriving an identifier prefix from an inception event (icp, dip, vcp, ...) gives the basic (the single key) or self-addressing (digest with placeholders in the said and identifier fields) prefix the event's content determines, for each supported code, and that prefix verifies against that event. Derivation is refused for non-inception events, for a key whose transferability does not match the code, and for a non-transferable identifier with non-empty next keys, witnesses or anchors. Verification fails for any other key, for a non-transferable identifier with next keys, and for a self-addressing identifier when any committed field of the event changed.",
  ["inputs", "configurations"], "all supported prefix codes x inception shapes (icp/dip/vcp/other ilks, 0..2 keys, next keys, witnesses, anchors present/empty/absent) x prefixed or not; all single-field alterations",
  "Tests derive about ten prefixes; legality is a conjunction of several conditions per code.",
  ["src/core/prefixer.rs"], [("derive_*/verify_*", "src/core/prefixer.rs")], ["Prefixer::new_with_ked", "Prefixer::verify"])
p("C18", "Numbers and sequence numbers keep their value in every representation",
  "A number or sequence number built from an integer, a hex string, raw bytes, text or binary reports the same integer and the matching hex everywhere, and survives conversion to any other representation. Each number uses the smallest code that holds it, sequence numbers always use the fixed 24-character form, and non-numeric, negative or too-large values are rejected.",
  ["inputs"], "all integers 0..=65536+256 and +-2 around every power of two up to 2^128, in every representation and code; all hex strings of <=3 characters plus boundary lengths, upper/lower case, signs, spaces",
  "Tests try about ten values; boundaries are at 2^16, 2^32, 2^64, 2^120.. and in leading zero handling.",
  ["src/core/number.rs", "src/core/seqner.rs"], [("code selection by size", "src/core/number.rs"), ("hex parsing", "src/core/number.rs")], ["Number::new*", "Seqner::new*", "num", "numh", "huge", "sn", "snh"])
p("C19", "Base64 strings and SAD paths survive encoding and resolve to the right value",
  "A base64 text string built from text gives back exactly that text after any conversion between text, binary and raw (outside the documented ambiguity of a leading 'A' in multiples of four), and a non-base64 string is rejected. A path built from well-formed components (not empty, without the separator) or text renders, encodes, and parses to the same components, and malformed components are rejected. Resolving a path gives the value reached by walking its components one by one; rooting prepends another path's components, stripping removes another path's components when the path begins with them and otherwise changes nothing, and prefix-testing compares whole components.",
  ["inputs"], "all strings of length <=3 over the full alphabet, <=8 over {A,B,-,_}, and boundary lengths to the 4096-quadlet limit; all paths of <=3 components over a component alphabet incl. shared prefixes and digits, all pairs for root/strip/starts_with, resolved on a document family",
  "Tests cover about twenty strings and paths; mid-pad/lead handling depends on length mod 4 and first character, path prefix tests on component boundaries.",
  ["src/core/bexter.rs", "src/core/pather.rs"], [("rawify/derawify", "src/core/bexter.rs"), ("root/strip/resolve", "src/core/pather.rs")], ["Bexter::new*", "Bext::bext", "Pather::*"])
p("C20", "Datetimes keep their text exactly",
  "A datetime built from an RFC-3339 profile text of 32 characters (microseconds and numeric offset) gives back exactly that text after any conversion between text, bytes, raw and binary, and its encoded form is the spec's character substitution of it. Text of another length and text with characters the substitution cannot carry are rejected. A datetime built without a text states the present instant of the system clock in UTC, to the microsecond.",
  ["inputs"], "all field boundary values (year/month/day incl. leap rules/hour/minute/second/microsecond/offset sign and digits) as a lattice; all single-character substitutions of valid texts over the printable alphabet, in both the plain and the encoded form; the first and last instant of every day 1970-2134 (thorough: to 9999), and boundary instants, as answers of the system clock",
  "Tests use two or three timestamps.",
  ["src/core/dater.rs"], [("dts substitution and validation", "src/core/dater.rs")], ["Dater::new*", "dts", "dtsb"])
p("C21", "JSON values convert without loss",
  "Converting JSON to the library's value type and back preserves every value, key and key order (integers over the full 64-bit signed and unsigned range, floats, strings with any character, nesting), and serializing gives exactly the compact JSON text of the same value. Conversion never panics or changes a number's value or kind. The building macro yields the value it spells, and writing to one place of a document changes that place only.",
  ["inputs"], "all JSON documents of depth <=3 over an atom alphabet with numeric, string-escape and unicode boundary atoms and all orders of <=3 keys; all single Unicode scalar strings; all sequences of up to 3 writes into documents; the macro's forms token by token",
  "Tests convert one or two documents with small numbers.",
  ["src/data.rs"], [("From<&JsonValue>/to_json", "src/data.rs")], ["data::Value", "dat!"])
p("C22", "Results depend only on arguments, not on history or threads",
  "Every operation of the library gives the same result for the same arguments whatever operations ran before it in the process, successful or failing, and whatever operations run at the same time on other threads. Reading from an object never changes it, and a failed operation leaves its object and the library usable.",
  ["histories", "schedules"], "all ordered pairs and words of three of ~150 representative operations including failing and panicking-input ones, each result compared with the same operation in a fresh state; first-use races of lazily built state with all pairs of first operations on concurrent threads; all words of up to two (thorough three) reading and writing steps on one object of each kind, and of three reads; several hundred distinct arguments of each kind of operation in one process",
  "Tests run each operation once in an arbitrary order and never compare across histories.",
  ["src/core", "src/lib.rs"], [("lazily initialised regexes are the only global state", "src/core/common.rs, bexter.rs, dater.rs")], ["public API"])
p("C23", "Fresh secrets come from the system entropy source, whole and only once",
  "A freshly generated salt, signing seed or nonce consists entirely of bytes obtained from the operating system's random source for that object: each needed byte comes from its own fresh request, none is reused across objects, constant, or taken from elsewhere. If the source returns short reads or is interrupted the result is still complete, and if it yields unusable material (such as a scalar outside the group) a new draw is made.",
  ["fault_sequences", "inputs"], "all sequences of answers {full, short, interrupted} of bounded length from an interposed entropy source for each generating constructor, with counted and distinct byte streams, including out-of-range scalars",
  "Tests only check that two random values have the right length; entropy cannot be observed without controlling the source.",
  ["src/crypto/csprng.rs", "src/crypto/sign.rs", "src/core/salter.rs", "src/core/signer.rs"], [("OsRng fill", "src/crypto/csprng.rs")], ["Salter::new_with_defaults", "Signer::new_with_defaults"])
p("C24", "A key event log accepts only authorized, chained, intact events",
  "Build key event messages (an event, counters, indexed signatures, witness receipts) with the library, send them as text or binary, alone or as one stream, and validate them with the library's own primitives: an event is accepted exactly when it is intact (its SAID, or for an inception its prefix, is that of its content), follows the previous event (identifier, sequence number, prior SAID), carries verified signatures of distinct listed keys that meet its signing threshold, for a rotation shows pre-committed next keys that meet the prior next threshold, carries verified receipts of distinct current witnesses that meet the witness threshold, and, for the inception or a rotation of a delegated identifier, points to an event of its delegator's log that seals it. No replay, reorder, truncation, miscount, or substitution of a signature, index, prior index, code, key, digest, threshold, witness or other content is accepted, and the resulting state (prefix, sequence number, SAID, keys, next digests, witnesses, witness threshold, delegator) is the one the accepted events state.",
  ["histories", "inputs"], "breadth-first exploration of all histories of {inception, interaction with and without anchors, full, partial and last rotation, change of witnesses} up to 4 events (thorough: 5) for 12 controllers (1 to 3 and 66 keys, all suites, numeric, weighted and nested thresholds, 0 to 3 witnesses, two of them under a delegator with a log of its own); in every state up to depth 3 (4) some 300 to 2000 alterations of every next message, all messages of other histories, every order of delivery of the messages of three branches; against a reference log on bytes",
  "Tests exercise primitives one at a time; the guarantee users want arises only from their composition over a history.",
  ["src/core/serder.rs", "src/core/siger.rs", "src/core/signer.rs", "src/core/tholder.rs", "src/core/prefixer.rs", "src/core/counter/mod.rs", "src/core/diger.rs", "src/core/verfer.rs"], [("Serder accessors, Verfer::verify, Tholder::satisfy, Diger::verify, Prefixer::verify, Saider::verify, Counter", "src/core")], ["public API composed as a validator"])
p("C25", "Untrusted events, credentials and thresholds never panic",
  "No byte string handed as an event, credential, version string, threshold or path, and no key/value object with missing, null, wrongly typed or oversized fields, makes the library panic in construction, verification or any accessor: the result is a value or an error.",
  ["inputs"], "for every event/credential shape: each field (and each pair of fields) absent, null, or of each wrong type or boundary value; all version-string size fields vs. actual length combinations; all short byte strings around a version string; all accessors and verifiers on whatever is accepted",
  "Tests access fields of well-formed events only.",
  ["src/core/serder.rs", "src/core/creder.rs", "src/core/sadder.rs", "src/core/saider.rs", "src/core/prefixer.rs", "src/core/tholder.rs", "src/core/pather.rs", "src/data.rs"], [("field presence and type checks", "src/core/*.rs")], ["Serder/Creder/Saider/Prefixer/Tholder/Pather API"])
p("C26", "The WebAssembly binding answers exactly as the core library",
  "Every constructor, accessor and operation the WebAssembly wrappers export returns the same result, for the same arguments, as the corresponding core operation, and fails exactly when it fails. Numbers split into high and low words, byte vectors, optional arguments and JSON values cross the boundary unchanged.",
  ["inputs", "configurations"], "every exported method of all 14 wrapper types, driven natively over the argument alphabets of the core checks (all codes, boundary integers in every 64-bit word, option combinations), compared with the core call",
  "The binding has no tests in the pinned suite.",
  ["wasm/src"], [("wrapper delegation", "wasm/src/primitives/*.rs"), ("value conversions", "wasm/src/util.rs")], ["exported wrapper methods"])
p("C27", "Secrets are wiped from memory when dropped",
  "Once a signer or salter has been dropped, or a failing constructor or operation has given up on one, no heap block that the library allocated on the way still holds its secret, in bytes or as base64 text: each was wiped before it was given back, and none is kept. This holds after any sequence of operations on the object (exporting, cloning, signing, stretching, deriving signers). What the caller was handed (exported forms, stretched seeds, error values) is the caller's.",
  ["inputs", "histories"], "every constructor and drop path of secret-holding objects",
  "Memory contents after free are outside the language's observable behaviour and no test looks at them.",
  ["src/core/signer.rs", "src/core/salter.rs", M], [("Zeroize / ZeroizeOnDrop derives", "src/core/signer.rs, salter.rs")], ["process memory"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
