import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Decoding untrusted data never crashes and every failure can be reported",
"Decoding any byte string, base64 text or serialised-form text as a v0 or a v2 PSBT terminates with a PSBT or an error: it never panics, aborts, or allocates memory out of proportion to the size of its input. Every error it returns, and every error in its chain of causes, can be rendered as non-empty text.",
["inputs"],"every byte string and every text, in particular every truncation, corruption, length/count forgery and field mix-up of a well-formed PSBT",
"The tests decode a fixed list of BIP vectors; the space of malformed inputs (lengths, counts, truncations at every offset, forged field values) is unbounded and several error renderings are never exercised.",
["src/v2/mod.rs","src/v2/map/global.rs","src/v2/map/input.rs","src/v2/map/output.rs","src/raw.rs","src/serialize.rs","src/v2/error.rs","src/v0/bitcoin/serialize.rs","src/v0/bitcoin/map/global.rs"],
[("bounded key/value reads","src/raw.rs Key::decode"),("per-field length checks","src/v2/map/*.rs insert_pair"),("count handling","src/v2/mod.rs Psbt::deserialize"),("error rendering","src/v2/error.rs, src/error.rs")],
["v2::Psbt::deserialize","v2::Psbt::from_str","v0::Psbt::deserialize","v0::Psbt::from_str","Display/source of the returned errors"])

p("C02","Every role handles every decodable PSBT without crashing",
"For any PSBT (v0 or v2) that decodes, every role - updating, signing with any key store, combining with any other decodable PSBT, computing fees, identification, finalizing, extracting, re-encoding - returns a result or an error and never panics or aborts, and each error can be rendered as text.",
["inputs","histories"],"every decodable PSBT (including semantically nonsensical ones: missing or mismatching utxos and scripts, out of range output indices, hostile scripts, odd sighash types) and every order of role operations on it",
"Tests only drive the roles with well-formed, cooperative PSBTs; a signer or finalizer receives PSBTs from untrusted counterparties.",
["src/v2/mod.rs","src/v2/extract.rs","src/v2/miniscript/finalize.rs","src/v2/miniscript/mod.rs","src/v2/map/global.rs","src/v2/map/input.rs","src/v0/bitcoin/mod.rs","src/v0/miniscript/mod.rs","src/v0/miniscript/finalizer.rs","src/v0/mod.rs"],
[("role constructors check the invariants later unwraps rely on","src/v2/mod.rs, src/v2/extract.rs, src/v2/miniscript/finalize.rs"),("checked input access","src/v2/mod.rs checked_input")],
["Updater/Signer/Finalizer/Extractor constructors and methods","v2::combine","v0::Psbt methods and PsbtExt"])

p("C03","A v2 PSBT survives encoding to bytes, hex and base64 unchanged",
"Any v2 PSBT that can be assembled through the public API (with field values the format can carry) encodes to bytes that decode to an equal PSBT, including outputs of any amount and script, every optional input and output field, every map entry and every flag. The hex and base64 forms are encodings of exactly those bytes, and parsing the base64 text gives the equal PSBT back.",
["inputs","histories"],"every assignment of values to all global, input and output fields and every number of inputs and outputs",
"Tests round-trip a handful of vectors; each field's codec has its own value space (empty, boundary, large, keyed) and interactions between fields of a map.",
["src/v2/mod.rs","src/v2/map/global.rs","src/v2/map/input.rs","src/v2/map/output.rs","src/v2/map/mod.rs","src/serialize.rs","src/raw.rs","src/macros.rs","src/v2/dleq.rs"],
[("get_pairs / insert_pair symmetry","src/v2/map/*.rs"),("value codecs","src/serialize.rs")],
["v2::Psbt::serialize/deserialize","serialize_hex","Display/FromStr"])

p("C04","The v2 decoder accepts exactly the well-formed PSBTs of the BIPs",
"A byte string is decoded as a v2 PSBT if and only if it is well-formed under BIP-174/370/371/375: required fields present exactly once, no duplicate keys, no key data on fields that take none, every key and value of the prescribed form and length, stated map counts matching, hash preimages matching their hash, fields of the version-0 format that are forbidden absent, and (with silent payments enabled) share/proof presence paired and no label without its address data. When accepted, every field of the result has the value that the bytes state, whatever the order of the fields within a map.",
["inputs","configurations"],"every combination of fields, field orders, omissions, duplications and malformed keys or values in any of the maps, with and without the silent payments feature",
"The BIP vectors sample single violations of single rules in one field order; the rules must hold for each field, position, order and combination.",
["src/v2/map/global.rs","src/v2/map/input.rs","src/v2/map/output.rs","src/macros.rs","src/raw.rs","src/serialize.rs","src/consts.rs","src/v2/dleq.rs"],
[("duplicate and key-data checks","src/macros.rs v2_impl_psbt_insert_pair"),("required-field checks","decode functions in src/v2/map/*.rs"),("typed decoding","src/serialize.rs")],
["v2::Psbt::deserialize result","public fields of the decoded PSBT"])

p("C05","Decoding and re-encoding a PSBT loses and invents nothing",
"For any well-formed PSBT (v0 or v2), decoding it and encoding the result yields the same set of key-value pairs in every map, including unknown and proprietary ones, except that a default may be made explicit or left out: an absent transaction-modifiable field of a v2 PSBT appears as zero, and a version field of zero of a v0 PSBT is omitted; a taproot tree may list the two children of a branch in the other order. Encoding is canonical: encoding what was decoded from an encoding gives the identical bytes.",
["inputs"],"every well-formed PSBT, with any set and order of known, unknown and proprietary fields in any map",
"Tests compare a few re-encoded vectors; silently dropped, duplicated or altered fields (particularly unknown and proprietary ones, or unusual key/value forms) are not sampled.",
["src/v2/map/global.rs","src/v2/map/input.rs","src/v2/map/output.rs","src/v2/map/mod.rs","src/raw.rs","src/serialize.rs","src/v0/bitcoin/serialize.rs","src/v0/bitcoin/map/global.rs","src/v0/bitcoin/map/input.rs","src/v0/bitcoin/map/output.rs","src/v0/bitcoin/raw.rs"],
[("unknown/proprietary preservation","insert_pair fallbacks in src/v2/map/*.rs and src/v0/bitcoin/map/*.rs"),("get_pairs","same files")],
["bytes produced by serialize after deserialize"])

p("C06","Serde serialisation of PSBTs is faithful in every format",
"Serialising any v0 or v2 PSBT with serde, in a human-readable or a binary format, and deserialising it gives an equal PSBT; the same holds for the raw key, proprietary key, sighash type and proof types on their own. Malformed serde input gives an error, not a crash.",
["inputs","configurations"],"every PSBT, for self-describing text and compact binary serde formats",
"Only a couple of values are serde round-tripped in tests and only as JSON; the map helpers and byte helpers have separate human-readable and binary paths.",
["src/serde_utils.rs","src/v2/dleq.rs","src/v2/map/global.rs","src/v2/map/input.rs","src/v2/map/output.rs","src/v0/bitcoin/mod.rs","src/raw.rs","src/version.rs","src/sighash_type.rs"],
[("map/byte helpers","src/serde_utils.rs"),("derives","struct definitions")],
["serde_json and bincode round-trips"])

p("C07","Combining v2 PSBTs is a lossless, order-independent merge",
"Combining two v2 PSBTs for the same transaction is commutative, associative and idempotent: the result holds every field and map entry present in either operand, each with a value one of them had, and nothing else, and it is modifiable only as far as both operands are and records a single-signature flag if either does. Operands that describe different transactions (different version, inputs, outputs, number of either, or lock time) are rejected with an error, in either order.",
["inputs","histories"],"every pair and triple of PSBTs derived from a common ancestor by arbitrary additions (also conflicting ones), and pairs of unrelated PSBTs, in every order",
"Tests combine one or two vectors in one order; the algebraic laws quantify over all operand pairs, overlaps, conflicts and orders.",
["src/v2/mod.rs","src/v2/map/global.rs","src/v2/map/input.rs","src/v2/map/output.rs","src/macros.rs"],
[("field merges","src/macros.rs v2_combine_option / v2_combine_map"),("identity checks","combine functions in src/v2/map/*.rs")],
["v2::combine / Psbt::combine_with results in both orders"])

p("C08","The transaction lock time is the one BIP-370 prescribes",
"For any v2 PSBT the determined lock time is exactly BIP-370's: the fallback (or zero) when no input requires one, otherwise the maximum over the inputs of the lock time type supported by all of them, preferring block height when both types are possible, and an error exactly when no type satisfies all inputs. Updating, signing, finalizing and extracting use this lock time, and the roles that need it refuse a PSBT for which it cannot be determined.",
["inputs"],"every assignment of optional height and time requirements to any number of inputs, and every fallback lock time",
"The BIP vectors have at most two inputs and a few fixed values; the rule quantifies over all inputs and their combinations.",
["src/v2/mod.rs","src/v2/map/input.rs","src/v2/extract.rs","src/v2/miniscript/finalize.rs"],
[("determine_lock_time","src/v2/mod.rs"),("per-input predicates","src/v2/map/input.rs")],
["Psbt::determine_lock_time","Signer::unsigned_tx().lock_time","extracted transaction lock time","role constructors"])

p("C09","A v2 PSBT keeps its identity through its life and shares it with no other",
"The unique identification of a v2 PSBT is the txid of its unsigned transaction with all sequences zero, is reported identically by every role, and does not change when sequences are updated, metadata or signatures are added, the PSBT is re-encoded, combined, or finalized. Changing the transaction version, determined lock time, any input's outpoint, any output or the order of inputs or outputs changes it; the unsigned transaction has exactly the PSBT's inputs and outputs in order with empty signatures and the stated sequences (final when omitted).",
["histories","inputs"],"every PSBT and every history of role operations applied to it",
"Tests never follow one PSBT's identity through a history of updates, signatures, merges and finalization.",
["src/v2/mod.rs","src/v2/map/input.rs","src/v2/map/output.rs","src/v2/extract.rs","src/v2/miniscript/finalize.rs"],
[("id / unsigned_tx","src/v2/mod.rs"),("unsigned_tx_in","src/v2/map/input.rs")],
["Updater::id, Signer::id, Finalizer::id, Extractor::id","Signer::unsigned_tx"])

p("C10","Construction roles respect the modifiable flags and keep the counts true",
"Through any sequence of creator and constructor operations the stated input and output counts equal the numbers of inputs and outputs, these stay in the order added with the values given, and the modifiable flags are exactly those the operations established. A constructor of a kind can be obtained from an existing PSBT only if the flags it needs are set, finishing construction clears both flags, the updater's sequence change touches only the addressed input and fails for an index out of range, and every PSBT the roles hand out decodes from its encoding to an equal PSBT.",
["histories"],"every sequence of creator, constructor and updater operations, including handing the PSBT between separate entities",
"Tests exercise a few fixed build sequences; the flags and counts must be right after every sequence.",
["src/v2/mod.rs","src/v2/map/global.rs"],
[("Creator/Constructor/Updater","src/v2/mod.rs"),("flag accessors","src/v2/map/global.rs")],
["PSBT returned by Constructor::psbt / updater, fields of global","Err values of Constructor::new, Updater::set_sequence"],
[("tx_modifiable_flags","bitfield of inputs/outputs modifiable and has-sighash-single","src/v2/map/global.rs Global")])

p("C11","Signing a v2 PSBT yields exactly the valid signatures its keys can make",
"After signing, every added signature verifies under the public key it is filed under for the message that consensus prescribes for that input's output type (bare, P2SH, P2WPKH, P2WSH and nested forms), amount, script and requested sighash type, and carries that sighash type (all when none is requested). A signature is present for every key listed in the input's derivations that the key store can supply, for every input that can be signed by ECDSA, and the reported keys are exactly those signed with; an input with a known funding output spendable by ECDSA that a supplied key wants to sign, but whose message cannot be computed, is reported as an error.",
["inputs","configurations"],"every mix of input output-types, sighash types, funding information, derivation entries and key stores",
"Tests sign one or two fixed transactions; validity of the signature depends on the output type, amounts, scripts, index, sighash type and sequence numbers of all inputs.",
["src/v2/mod.rs","src/v2/map/input.rs","src/sighash_type.rs"],
[("Psbt::sign / bip32_sign_ecdsa / sighash_ecdsa","src/v2/mod.rs"),("output_type","src/v2/mod.rs")],
["Signer::sign result: partial_sigs, SigningKeys, SigningErrors","Psbt::sighash_ecdsa"])

p("C12","Signing changes nothing but signatures and the modifiable flags",
"After signing a v2 PSBT the inputs-modifiable flag is cleared if and only if it was set and some added signature lacks anyone-can-pay, the outputs-modifiable flag is cleared if and only if some added signature is not none-type, the single-signature flag is set if some added signature is single-type and otherwise unchanged. When nothing was signed no flag changes, every other field of the PSBT is untouched, signatures made by others are kept, and signing again with the same keys changes nothing.",
["inputs","histories"],"every PSBT, sighash type per input, key store, prior flag value and sequence of signers",
"Tests do not look at the flags after signing, let alone for each sighash type and signing history.",
["src/v2/mod.rs","src/v2/map/global.rs"],
[("clear_tx_modifiable","src/v2/mod.rs"),("bip32_sign_ecdsa","src/v2/mod.rs")],
["global.tx_modifiable_flags and the rest of the PSBT after Signer::sign","Signer::ecdsa_clear_tx_modifiable"])

p("C13","Key stores return the requested private key or none",
"Asked for a fingerprint and derivation path, an extended private key returns the private key derived from it along that path if the fingerprint is its own (a set of them: from the member with that fingerprint), and nothing otherwise; asked for a public key, a key map returns the private key filed under it and nothing otherwise. Requests a store cannot serve are reported as unsupported, for the v0 and the v2 format alike.",
["inputs","configurations"],"every key store (single key, ordered or hashed sets, ordered or hashed maps) and every request",
"Tests use one key map with one request form.",
["src/v2/mod.rs","src/v0/bitcoin/mod.rs"],
[("GetKey implementations","src/v2/mod.rs, src/v0/bitcoin/mod.rs")],
["GetKey::get_key"])

p("C14","A finalized v2 PSBT extracts to a transaction valid under consensus",
"Whenever finalizing a v2 PSBT succeeds, the transaction extracted from it satisfies the consensus script rules at every input for the funding output the PSBT names (signatures, hash locks, absolute and relative lock times, and witness rules included). Its version, lock time, outpoints, sequences and outputs are exactly those of the unsigned transaction that was signed.",
["inputs","histories"],"every PSBT content offered to the finalizer: complete, incomplete, or wrong signatures, scripts, preimages, lock times, sequences and versions, for all output types",
"Tests finalize a couple of fixed PSBTs; soundness quantifies over all scripts and all right or wrong satisfaction data.",
["src/v2/miniscript/finalize.rs","src/v2/miniscript/mod.rs","src/v2/miniscript/satisfy.rs","src/v2/map/input.rs","src/v2/extract.rs"],
[("satisfier","src/v2/miniscript/satisfy.rs"),("interpreter check","src/v2/miniscript/mod.rs"),("Input::finalize","src/v2/map/input.rs"),("signed_tx_in","src/v2/map/input.rs")],
["Finalizer::finalize","Extractor::extract_tx_unchecked_fee_rate"])

p("C15","Finalizing succeeds exactly when there is enough data and keeps what it must",
"If every input of a v2 PSBT has its funding output, scripts and enough valid signatures, preimages and elapsed lock times to satisfy its script (a key, key hash or standard bare multisignature output, a miniscript under P2SH, P2WSH or both, or a taproot key or leaf without key hashes), finalizing succeeds; if some input lacks every satisfying combination, it fails and names an input. A finalized input keeps its outpoint, sequence, lock time requirements, funding data and unknown fields, gains its final script and witness, and has its signing data cleared, while the global fields and outputs are unchanged and the original PSBT is not modified.",
["inputs"],"every standard output type and miniscript, every subset of satisfaction data, legacy or segwit funding information",
"Tests finalize one legacy and one segwit example; whether data suffices depends on the script and on which subset of keys, preimages and lock times is available.",
["src/v2/miniscript/finalize.rs","src/v2/miniscript/satisfy.rs","src/v2/map/input.rs"],
[("get_descriptor / construct_tap_witness","src/v2/miniscript/finalize.rs"),("Input::finalize","src/v2/map/input.rs")],
["Finalizer::new","Finalizer::finalize"])

p("C16","Extraction demands finalized inputs and enforces the fee rate limit",
"A transaction can be extracted from a v2 PSBT only if every input carries both final script and final witness and the lock time is determined, and then it consists of exactly the PSBT's version, lock time, inputs with their final scripts, and outputs. The checked forms return it if and only if the fee is computable and the fee rate does not exceed the limit (the default one when none is given), reporting both rates otherwise; the unchecked form ignores the fee.",
["inputs"],"every finalized or partly finalized PSBT, amounts over the whole range, and every fee rate limit",
"No test reaches the fee rate boundary, overflow of amounts, or partially finalized PSBTs.",
["src/v2/extract.rs","src/v2/map/input.rs","src/v2/mod.rs"],
[("Extractor","src/v2/extract.rs"),("is_finalized / signed_tx_in","src/v2/map/input.rs")],
["Extractor::new and extract_* results"])

p("C17","Fees and funding outputs are computed exactly or refused",
"The fee of a PSBT (v0 or v2) is the sum of its inputs' funding amounts minus the sum of its output amounts, and an error exactly when a funding output is missing or out of range, a sum overflows, or the difference would be negative. The funding output of an input is its witness utxo, or else the output its index selects in its non-witness utxo, reported in input order.",
["inputs"],"every set of inputs and outputs, funding forms, indices, and amounts over the whole 64-bit range",
"Tests compute one fee; overflow, negative and out of range cases are not covered.",
["src/v2/mod.rs","src/v2/map/input.rs","src/v0/bitcoin/mod.rs","src/error.rs"],
[("fee / iter_funding_utxos","src/v2/mod.rs, src/v0/bitcoin/mod.rs"),("funding_utxo","src/v2/map/input.rs")],
["Psbt::fee, iter_funding_utxos, Input::funding_utxo"])

p("C18","Sighash types convert without loss and reject what is not standard",
"A PSBT sighash type preserves its number through construction and encoding, prints to text that parses back to the same number, and converts from and to the ECDSA and taproot sighash types exactly for the numbers those types define, with an error for every other number. An input without a sighash type means all for ECDSA and default for taproot.",
["inputs"],"all 32-bit numbers and all texts",
"Tests enumerate the named types and one non-standard number.",
["src/sighash_type.rs","src/v2/map/input.rs","src/v0/bitcoin/map/input.rs"],
[("PsbtSighashType","src/sighash_type.rs"),("ecdsa_hash_ty / taproot_hash_ty","src/v2/map/input.rs, src/v0/bitcoin/map/input.rs")],
["Display/FromStr, from_u32/to_u32, ecdsa_hash_ty, taproot_hash_ty"])

p("C19","The v0 format is read and written exactly as rust-bitcoin does",
"For every byte string or text without version-2-only fields, the v0 decoder accepts exactly what rust-bitcoin's PSBT decoder accepts, and the decoded PSBT holds the same values and encodes to the same bytes, hex and base64 text. Conversely a PSBT encoded by either is decoded by the other.",
["inputs"],"every byte string, well-formed or not, and every PSBT value",
"The v0 module is a copy meant to be a drop-in; its tests sample vectors, while drop-in equivalence quantifies over all inputs.",
["src/v0/bitcoin/mod.rs","src/v0/bitcoin/serialize.rs","src/v0/bitcoin/raw.rs","src/v0/bitcoin/map/global.rs","src/v0/bitcoin/map/input.rs","src/v0/bitcoin/map/output.rs","src/v0/bitcoin/macros.rs"],
[("imported codec","src/v0/bitcoin/*")],
["v0::Psbt::deserialize / serialize vs bitcoin::Psbt"])

p("C20","v0 PSBT operations give the results of rust-bitcoin",
"Creating a v0 PSBT from an unsigned transaction, combining, computing fees, iterating funding outputs, and extracting transactions with and without fee limits give the same result or the same kind of error as rust-bitcoin's PSBT for every operand. Combining PSBTs of one transaction keeps every signature, script, derivation, preimage, proprietary and unknown entry of either.",
["inputs","histories"],"every unsigned transaction, every PSBT (pair), every amount and fee rate limit, and sequences of these operations",
"Tests run single fixed examples; the drop-in claim quantifies over all operands and histories.",
["src/v0/bitcoin/mod.rs","src/v0/bitcoin/map/global.rs","src/v0/bitcoin/map/input.rs","src/v0/bitcoin/map/output.rs","src/v0/bitcoin/macros.rs"],
[("imported operations","src/v0/bitcoin/mod.rs")],
["v0::Psbt operations vs bitcoin::Psbt"])

p("C21","v0 signing yields exactly the valid ECDSA and Schnorr signatures",
"Signing a v0 PSBT with any key store adds, for every listed key the store can supply, a signature that verifies for the message consensus prescribes for the input (legacy, P2SH, segwit v0 and nested, taproot key path and script path), carries the requested sighash type, and is reported as used; nothing else changes and nothing is signed with other keys. The signing messages are those rust-bitcoin computes, and inputs that cannot be signed are reported as errors of the same kind.",
["inputs","configurations"],"every mix of input types, sighash types, key stores, taproot trees and funding information",
"Tests sign one vector set; correctness depends on input type, index, scripts, amounts, leaf hashes, merkle root and sighash type.",
["src/v0/bitcoin/mod.rs"],
[("sign / bip32_sign_ecdsa / bip32_sign_schnorr / sighash_*","src/v0/bitcoin/mod.rs")],
["v0::Psbt::sign, sighash_ecdsa, partial_sigs, tap_key_sig, tap_script_sigs"])

p("C22","v0 descriptor updates and finalization behave as rust-miniscript",
"Updating a v0 input or output with a descriptor, computing its signing message, finalizing (all or one input, malleable or not) and extracting give the same PSBT, message, transaction or kind of error as rust-miniscript's PSBT extension, for every descriptor and any satisfaction data. A transaction extracted after successful finalization satisfies the consensus script rules at every input, and an input for which finalization fails is left as it was.",
["inputs","histories"],"every descriptor type, derivation, key subset, preimage set, lock time and sequence, and sequences of updates, signatures and finalizations",
"Tests finalize two or three fixed PSBTs; behaviour depends on the descriptor and the data available.",
["src/v0/miniscript/mod.rs","src/v0/miniscript/finalizer.rs","src/v0/miniscript/util.rs"],
[("PsbtExt / PsbtInputExt / finalizer","src/v0/miniscript/*")],
["PsbtExt methods vs miniscript::psbt::PsbtExt"])

p("C23","PSBT versions are never confused",
"No byte string decodes as both a v0 and a v2 PSBT. A PSBT carrying a field that its version excludes (the unsigned transaction in v2; transaction version, fallback lock time, counts, modifiable flags, outpoint, sequence, lock time or amount and script fields in v0) or another or no matching version number is rejected by that version's decoder, and the version value itself converts from and to exactly the numbers of the supported versions.",
["inputs"],"every well-formed PSBT of one version with every possible addition of a field of the other version, in any map and position",
"Tests contain one vector per excluded key, at one position.",
["src/v2/map/global.rs","src/v0/bitcoin/map/global.rs","src/v0/bitcoin/map/input.rs","src/v0/bitcoin/map/output.rs","src/version.rs","src/consts.rs"],
[("ExcludedKey checks","src/v0/bitcoin/map/*.rs, src/v2/map/global.rs"),("version check","src/v2/map/global.rs, src/v0/bitcoin/map/global.rs, src/version.rs")],
["both decoders on the same bytes","Version conversions"])

p("C24","The v0 signer checks pass exactly the PSBTs BIP-174 lets a signer sign",
"For a v0 PSBT the signer checks succeed if and only if, at every input, a provided non-witness utxo has the txid of the outpoint spent, a provided witness utxo is not for an output that is signed as non-witness, a provided redeem script hashes to the funding output's script, and a provided witness script hashes to the funding output's script or to the redeem script. Valid nested-segwit and legacy script-hash inputs pass.",
["inputs"],"every input type, funding form, and right or wrong redeem and witness script, at every input position",
"Tests hold four BIP vectors with one mismatch each; the conditions must be checked for each input, type and combination.",
["src/v0/mod.rs","src/v0/bitcoin/mod.rs"],
[("signer_checks","src/v0/mod.rs"),("output_type","src/v0/bitcoin/mod.rs")],
["v0::Psbt::signer_checks"])

p("C25","v2 and v0 take the same transaction to the same result",
"For a v2 PSBT and the v0 PSBT that describes the same transaction with the same input and output data, signing with the same keys adds the same ECDSA signatures, finalizing (allowing malleable satisfactions) gives the same final scripts and witnesses or fails for both, and the extracted transaction and fee are the same.",
["inputs","histories"],"every transaction, data assignment, key store and sequence of sign, combine, finalize and extract steps",
"No test relates the two implementations; the agreement quantifies over all transactions and histories.",
["src/v2/mod.rs","src/v2/miniscript/finalize.rs","src/v2/miniscript/satisfy.rs","src/v2/extract.rs","src/v0/bitcoin/mod.rs","src/v0/miniscript/finalizer.rs","src/v0/miniscript/mod.rs"],
[("two implementations of one specification","src/v2, src/v0")],
["partial_sigs, final fields, extracted transactions of both"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
