#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=hook)))
T="src/transaction/types/"
p("C01","Transactions survive a binary round-trip unchanged",
 "Encoding any script, create or mint transaction and decoding the bytes gives back an equal transaction of the same kind, through the typed and the generic transaction alike. The number of bytes written, the advertised serialized size and the number of bytes consumed by decoding are all the same, and bytes following the encoding are neither consumed nor change the result. (Domain: predicate inputs carry a non-empty predicate, at most 65535 storage slots.)",
 ["inputs"],"every transaction of every kind, with any number, order and mixture of inputs, outputs, witnesses and slots, any payload length, any trailing bytes",
 "tests/bytes.rs round-trips a few dozen hand-built values with a fixed RNG; combinations of variable-length parts, counts beyond a handful, padding residues and boundary words are never reached",
 [T+"script.rs",T+"create.rs",T+"mint.rs","src/transaction/txio.rs","src/consts.rs"],
 [("io::Read / io::Write pair of each transaction",T+"{script,create,mint}.rs"),("discriminant dispatch and try_from_bytes","src/transaction/txio.rs"),("serialized_size",T+"{script,create,mint}.rs")],
 observe=["SerializableVec::to_bytes","Deserializable::from_bytes","Transaction::try_from_bytes","SizedBytes::serialized_size"])
p("C02","Transaction parts survive a binary round-trip unchanged",
 "Every input, output, witness, storage slot, UTXO id and transaction pointer, encoded on its own, decodes back to an equal value, with serialized size, bytes written and bytes consumed all equal. Bytes after the encoding change nothing, and decoding into a value that already holds something else gives the same result as decoding into a fresh one.",
 ["inputs"],"every variant and field value of each part (predicate inputs with non-empty predicate), any trailing bytes, any prior content of the destination",
 "tests/bytes.rs samples each variant a few times with payloads of fixed shape and always decodes into default values",
 [T+"input.rs",T+"output.rs",T+"witness.rs",T+"storage.rs",T+"utxo_id.rs","src/tx_pointer.rs"],
 [("io::Read / io::Write of each part",T+"*.rs"),("padding of variable-length data",T+"input.rs")],
 observe=["to_bytes","from_bytes","io::Write::write","serialized_size"])
p("C03","The wire layout is exactly the specified one",
 "The binary form of every transaction, input, output, witness, storage slot, UTXO id and transaction pointer is the canonical layout of the Fuel transaction format: 8-byte big-endian words, fixed field order, variable data zero-padded to a multiple of 8, lengths in the header, the documented type identifiers, and fixed-part sizes equal to the published constants. Two implementations of the format therefore agree byte for byte.",
 ["inputs"],"every transaction and every part of it",
 "existing tests check encode/decode against each other, so a change made on both sides (swapped fields, changed identifier, different padding) passes them",
 [T+"script.rs",T+"create.rs",T+"mint.rs",T+"input.rs",T+"output.rs",T+"witness.rs",T+"storage.rs",T+"utxo_id.rs","src/tx_pointer.rs","src/consts.rs"],
 [("field order in io::Read",T+"*.rs"),("TransactionRepr / InputRepr / OutputRepr identifiers","src/transaction/repr.rs, "+T+"input/repr.rs, "+T+"output/repr.rs")],
 observe=["to_bytes"])
p("C04","Receipts round-trip and have exactly the specified layout",
 "Every receipt kind encodes to the documented field sequence, decodes back to an equal receipt, and writes and consumes exactly its advertised serialized size; every byte of that size is determined by the receipt alone, whatever the destination buffer held before, and bytes following it do not matter. (A panic receipt's optional contract id is not part of the wire form, its instruction word keeps only the bits the instruction uses, and execution results use their canonical constructors.)",
 ["inputs"],"all eleven receipt kinds, every field value, payload lengths of every padding residue, any prior buffer content",
 "tests/bytes.rs encodes a few receipts into freshly zeroed buffers only and compares the crate with itself",
 ["src/receipt.rs","src/receipt/receipt_std.rs","src/receipt/receipt_repr.rs","src/receipt/script_result.rs"],
 [("Receipt io::Read / io::Write","src/receipt/receipt_std.rs"),("variant_len_without_data","src/receipt.rs")],
 observe=["to_bytes","io::Read::read into a dirty buffer","from_bytes"])
p("C05","Decoding hostile bytes never panics or over-allocates",
 "Decoding arbitrary, corrupted or maliciously crafted bytes as a transaction, input, output, witness, slot, pointer or receipt either fails with an error or yields a value; it never panics, never claims to have consumed more bytes than it was given, and never allocates memory out of proportion to the input. A value it yields can be encoded again and then decodes to itself (up to the unused bits of a panic receipt's instruction).",
 ["inputs"],"all byte strings, in particular valid encodings with corrupted length, count and identifier words",
 "no existing test decodes anything but well-formed encodings and simple prefixes of them",
 [T+"script.rs",T+"create.rs",T+"mint.rs",T+"input.rs",T+"witness.rs","src/receipt/receipt_std.rs","src/transaction/txio.rs"],
 [("length checks in io::Write",T+"*.rs")],
 observe=["from_bytes","allocation size","panics"])
p("C06","Short buffers and wrong identifiers are always rejected",
 "Decoding any strict prefix of a valid encoding fails, as does decoding with an unknown type identifier, as a different transaction kind, or with a block height or transaction index that does not fit a tx pointer. Encoding into a buffer smaller than the serialized size fails, and encoding into a larger one writes the encoding at the front and leaves the rest untouched.",
 ["inputs"],"every value, every cut point, every identifier word, every buffer length",
 "tests/bytes.rs cuts a few fixed values; the cut points inside nested variable-length parts and the kind mismatches are not enumerated",
 ["src/tx_pointer.rs",T+"script.rs",T+"create.rs",T+"mint.rs",T+"input.rs",T+"output.rs",T+"witness.rs","src/receipt/receipt_std.rs","src/transaction/txio.rs","src/transaction/repr.rs"],
 [("buffer length guards before unchecked restores",T+"*.rs"),("identifier TryFrom<Word>","src/transaction/repr.rs")],
 observe=["from_bytes","io::Read::read"])
p("C07","Serde forms round-trip every public value",
 "Serializing any transaction, input, output, witness, slot, identifier, receipt, contract, fee, parameter set or check error to JSON or to a binary serde format and deserializing it gives back an equal value, through the transaction's own JSON helpers too. Cached data never reaches the serialized form: a transaction with and without computed cache serializes identically, and a deserialized one starts without cache.",
 ["inputs"],"every value of each serializable type, cached or not",
 "tests/bytes.rs and tests/display.rs do this for single sample values",
 ["src/transaction.rs",T+"script.rs",T+"create.rs",T+"mint.rs",T+"input.rs",T+"output.rs","src/receipt.rs","src/transaction/consensus_parameters.rs"],
 [("serde derives and serde(skip) on the cache",T+"*.rs"),("to_json / from_json","src/transaction.rs")],
 observe=["serde_json","bincode"])
p("C08","UTXO ids and tx pointers have faithful text forms",
 "The lower- and upper-case hexadecimal text of any UTXO id or transaction pointer is the documented fixed-width form and parses back to the same value, with or without a 0x prefix for UTXO ids; up to two digits stand for an output of the zero transaction. Parsing arbitrary text never panics, and text that contains anything but hexadecimal digits (after the prefix) or is cut short within the transaction id or pointer is rejected.",
 ["inputs"],"all ids and pointers, all strings including non-ASCII ones",
 "two hand-written constants are formatted and parsed",
 [T+"utxo_id.rs","src/tx_pointer.rs"],
 [("LowerHex/UpperHex/FromStr",T+"utxo_id.rs, src/tx_pointer.rs")],
 observe=["format!","str::parse"])
p("C09","The transaction id commits to every signed field",
 "A transaction's id is the SHA-256 of its canonical encoding with exactly the fields that may change after signing blanked and the witnesses removed (a mint's id is the hash of its whole encoding). Changing any other field, or adding, removing or reordering inputs, outputs or storage slots, changes the id, and the generic and typed transaction report the same id.",
 ["inputs"],"every transaction, every single-field edit of it",
 "the id test edits a handful of randomly built transactions field by field; it has no independent value for the id and never mixes all variants, counts and cached states",
 ["src/transaction/id.rs",T+"script.rs",T+"create.rs",T+"mint.rs",T+"input.rs",T+"output.rs"],
 [("UniqueIdentifier::id",T+"{script,create,mint}.rs"),("Input::prepare_sign / Output::prepare_sign",T+"input.rs, "+T+"output.rs")],
 observe=["UniqueIdentifier::id"])
p("C10","The transaction id ignores fields that change after signing",
 "The id of a script or create transaction does not depend on its witnesses, on the receipts root, on coin or contract input transaction pointers, on a contract input's UTXO and roots, on a contract output's roots, on a message output's content, on a change amount or on a variable output's content. In particular signing, preparing for predicate execution and filling these fields during execution leave the id unchanged.",
 ["inputs","histories"],"every script or create transaction, every combination of edits of those fields, any witness set",
 "the id test toggles these fields one at a time on a few sampled transactions",
 ["src/transaction/id.rs",T+"script.rs",T+"create.rs",T+"input.rs",T+"output.rs"],
 [("Input::prepare_sign / Output::prepare_sign",T+"input.rs, "+T+"output.rs"),("witnesses cleared, receipts root zeroed",T+"script.rs")],
 observe=["UniqueIdentifier::id before and after"])
p("C11","Precomputed caches are invisible to every observer",
 "After the cache of a transaction is computed, every observation (id, size, bytes, all offsets, equality, hash, serialization, check verdicts) is the same as for an identical transaction without cache, whatever sequence of edits, recomputations, clones, signings, encodings and decodings preceded it. Recomputing after edits always refreshes the whole cache, cloning preserves it, and freshly built, decoded or deserialized transactions carry none.",
 ["histories"],"every sequence of edits, cache computations, clones, signings, checks and in-place decodings, on all three kinds",
 "tests/offset.rs and the id test compute the cache once on sampled transactions; no test recomputes after edits or decodes over a cached transaction",
 ["src/transaction/metadata.rs",T+"script.rs",T+"create.rs",T+"mint.rs"],
 [("Cacheable::precompute",T+"{script,create,mint}.rs"),("CommonMetadata::compute","src/transaction/metadata.rs"),("derivative(PartialEq/Hash = ignore)",T+"*.rs")],
 state=[("metadata","cached id and offsets of a transaction",T+"{script,create,mint}.rs")],
 observe=["Cacheable","UniqueIdentifier","field::*offset*","SizedBytes"])
p("C12","Transaction field offsets locate the actual bytes",
 "Every offset a transaction reports (header fields, script and script data, receipts root, salt, storage slots, and each input, output, witness and predicate by index) is the position at which exactly that item's encoding starts in the transaction's bytes, and the reported predicate length covers the zero-padded predicate. Asking for an index that does not exist, or for a predicate of an input without one, yields nothing.",
 ["inputs"],"every transaction, every index, cached or not",
 "tests/offset.rs checks sampled transactions with at most a few inputs of each kind",
 [T+"script.rs",T+"create.rs",T+"mint.rs","src/transaction/metadata.rs","src/consts.rs","src/transaction.rs"],
 [("*_offset, *_offset_at, *_offset_static",T+"{script,create,mint}.rs")],
 observe=["field::* offset methods"])
p("C13","Accessors and layout offsets of parts match the value",
 "Every accessor of an input or output returns the matching field of exactly the variants that have it and nothing for the others, and the classification predicates hold for exactly one kind. Every layout offset published for an input or output kind, and every predicate or data offset of an input, is the position of that field in the value's own encoding.",
 ["inputs"],"every input and output value, every accessor and offset",
 "tests/offset.rs covers some offsets on sampled values; accessors are not tested",
 [T+"input.rs",T+"input/repr.rs",T+"input/consts.rs",T+"output.rs",T+"output/repr.rs",T+"output/consts.rs"],
 [("InputRepr/OutputRepr *_offset",T+"{input,output}/repr.rs"),("accessors",T+"{input,output}.rs")],
 observe=["Input::*","Output::*","InputRepr::*","OutputRepr::*"])
p("C14","Signing satisfies exactly the inputs owned by the key",
 "Signing a transaction with the key of every signed coin or message input makes its signature check pass, in any key order and with any sharing of witnesses between inputs of one owner. Signing with a key writes its 64-byte signature of the transaction id into the witnesses of exactly the inputs that key owns, changes nothing else, does not change the id, and repeating it changes nothing.",
 ["inputs","histories"],"every transaction, every set and order of keys, shared and interleaved witness indexes, indexes without witness",
 "the tests sign with one or two keys and distinct witnesses",
 ["src/transaction/id.rs","src/transaction/checkable.rs","src/transaction.rs"],
 [("Signable::sign_inputs","src/transaction/id.rs"),("Input::check_signature","src/transaction/checkable.rs")],
 observe=["witnesses","check_signatures"])
p("C15","A signature check never accepts a tampered transaction",
 "The signature check accepts a transaction only if, for every signed coin and message input, the referenced witness exists, is a 64-byte signature over this transaction's id, and recovers to the public key whose hash is the coin's owner or message's recipient; every such transaction is accepted. Any edit of a signed field, of an owner, of a witness or of a witness index after signing that breaks this is rejected with an error naming an offending input.",
 ["inputs"],"every transaction and every edit after signing, on any input position",
 "tests/valid_cases/input.rs tries a handful of broken signatures on single-input transactions",
 ["src/transaction/checkable.rs","src/transaction/id.rs"],
 [("Input::check_signature","src/transaction/checkable.rs"),("Checkable::check_signatures",T+"{script,create}.rs")],
 observe=["check_signatures","Input::check_signature"])
p("C16","Predicate inputs are accepted only for their owner address",
 "A predicate coin or message input passes ownership checking exactly if its owner (for a message, its recipient) equals the Merkle code root of its predicate, both in the signature check and in the whole-transaction predicate-owner check, which holds exactly if every predicate input of the transaction passes.",
 ["inputs"],"all predicates, owners and mixtures of inputs, mismatching inputs at every position",
 "tests check one matching and one mismatching owner on one-input transactions",
 ["src/transaction/checkable.rs","src/transaction.rs",T+"input.rs","src/contract.rs"],
 [("Input::is_predicate_owner_valid",T+"input.rs"),("Executable::check_predicate_owners","src/transaction.rs")],
 observe=["check_signatures","check_predicate_owners","Input::predicate_owner"])
p("C17","Script validity is exactly the protocol's rule set",
 "A script transaction passes validation for a block height and parameter set exactly if it obeys every rule: gas limit, maturity, count limits, no duplicate coin UTXOs, contract ids or message ids, at most one change output per input asset, coin and change outputs only in input assets, well-formed inputs within length limits with existing witnesses, a one-to-one pairing of contract inputs and outputs, script and script-data limits, and no contract-creation output. A rejection names a rule, and where applicable an element, that is really violated.",
 ["inputs","configurations"],"every script transaction, block height and consensus parameter set, values at and around every limit",
 "tests/valid_cases reach each rule with one or two hand-made transactions under default parameters",
 ["src/transaction/checkable.rs",T+"script.rs","src/transaction/consensus_parameters.rs"],
 [("check_common_part","src/transaction/checkable.rs"),("Script::check_without_signatures",T+"script.rs")],
 observe=["Checkable::check_without_signatures","Checkable::check"])
p("C18","Create validity is exactly the protocol's rule set",
 "A create transaction passes validation exactly if it obeys every common rule (gas, maturity, counts, duplicates, assets, inputs) and its own: the bytecode witness exists, is within the contract size limit and has the declared instruction count; storage slots are within the limit and ordered by key; no contract input, contract output or variable output; change only in the base asset; at most one contract-creation output. A rejection names a rule, and where applicable an element, that is really violated.",
 ["inputs","configurations"],"every create transaction, block height and consensus parameter set, values at and around every limit",
 "tests/valid_cases reach each rule with one or two hand-made transactions under default parameters",
 ["src/transaction/checkable.rs",T+"create.rs",T+"storage.rs"],
 [("check_common_part","src/transaction/checkable.rs"),("Create::check_without_signatures",T+"create.rs")],
 observe=["Checkable::check_without_signatures","Checkable::check"])
p("C19","Mint validity is exactly the protocol's rule set",
 "A mint transaction passes validation exactly if its number of outputs is within the limit, its transaction pointer carries the block height it is checked at, every output is a coin and no two outputs share an asset; it never needs signatures. A rejection names a rule that is really violated.",
 ["inputs","configurations"],"every mint transaction, block height (beyond 32 bits too) and parameter set",
 "one test exercises a few mint transactions",
 [T+"mint.rs"],[("Mint::check_without_signatures",T+"mint.rs")],
 observe=["Checkable::check","IntoChecked"])
p("C20","Single input and output checks follow the same rules",
 "Checking one input or output against given outputs, inputs, witnesses and parameters accepts it exactly if it obeys the rules for that element: predicate non-empty and within limits, predicate data and message data within limits, witness present, exactly one contract output pointing at a contract input's position, a contract output pointing at a contract input, and for the full check a valid signature or predicate owner. The error names the given index, and the full check equals the structural check followed by the signature check.",
 ["inputs","configurations"],"every element, position, surrounding list and parameter set",
 "tests/valid_cases/input.rs and output.rs try a few fixed combinations",
 ["src/transaction/checkable.rs"],
 [("Input::check, check_without_signature, check_signature, Output::check","src/transaction/checkable.rs")],
 observe=["Input::check*","Output::check"])
p("C21","Fees are computed exactly, rounded up, and never wrap",
 "For any parameters with a positive price factor, the minimum and total fee are the exact products of gas and price divided by the factor and rounded up, with total at least the minimum and byte gas plus the gas limit as maximum gas; the refund value is the exact product rounded down. Whenever an intermediate or final value does not fit 64 bits the computation reports failure instead of wrapping, and deducting a fee from a balance succeeds exactly if the balance covers it.",
 ["inputs","configurations"],"all gas, price, byte-count, factor and rate words",
 "unit tests compute three or four fixed examples and three overflows",
 ["src/transaction/fee.rs"],
 [("TransactionFee::checked_from_values, gas_refund_value, checked_deduct_total","src/transaction/fee.rs")],
 observe=["TransactionFee"])
p("C22","Transactions are metered for their encoding without witnesses",
 "The byte count a script or create transaction is charged for equals the size of its encoding minus that of its witnesses, so that adding, removing, filling or signing witnesses never changes its fee, while any other growth of the encoding is charged byte for byte. The fee computed from a transaction is the fee of this byte count, its gas limit and its gas price.",
 ["inputs"],"every script and create transaction, cached or not, with any witnesses",
 "one unit test compares empty transactions with and without one witness",
 ["src/transaction/fee.rs",T+"script.rs",T+"create.rs"],
 [("Chargeable::metered_bytes_size",T+"{script,create}.rs"),("TransactionFee::checked_from_tx","src/transaction/fee.rs")],
 observe=["Chargeable","TransactionFee"])
p("C23","Free balances conserve input value minus fees and coin outputs",
 "A checked script or create transaction carries, for the base asset and each input asset, exactly the sum of its coin and message inputs (messages count as base asset) less its coin outputs and, for the base asset, the total fee. If any asset is overspent, the fee is not covered or a sum does not fit 64 bits, checking fails with the corresponding error; it never wraps or panics.",
 ["inputs","configurations"],"all mixtures of inputs and outputs over several assets, amounts up to the word maximum, any fee parameters",
 "unit tests use one or two inputs of one asset with moderate amounts",
 ["src/checked_transaction.rs",T+"script.rs",T+"create.rs"],
 [("initial_free_balances","src/checked_transaction.rs")],
 observe=["Checked::metadata","into_checked_basic errors"])
p("C24","Checked transactions always passed their checks and keep them",
 "A checked transaction is obtained exactly if the corresponding checks pass, holds the very transaction that was given with its cache computed, its fee and block height, and records precisely the checks it passed; the full check equals the basic check followed by the signature check, and repeating a check changes nothing. Converting between typed, generic and enum forms of checked transactions, in any chain, preserves transaction, metadata and recorded checks.",
 ["inputs","histories"],"every transaction, height and parameter set; every chain of checks and conversions",
 "unit tests follow a few fixed transactions through one conversion each",
 ["src/checked_transaction.rs",T+"script.rs",T+"create.rs",T+"mint.rs"],
 [("IntoChecked","src/checked_transaction.rs"),("CheckedTransaction conversions","src/checked_transaction.rs")],
 state=[("checks bitmask","which checks passed","src/checked_transaction.rs")],
 observe=["Checked::{transaction,metadata,checks}","CheckedTransaction"])
p("C25","Code roots are the Merkle root of the zero-padded code",
 "The root of any contract code or predicate is the RFC 6962-style binary Merkle root over its 8-byte chunks with the last chunk zero-padded (the hash of the empty string for no code), the same for every way of supplying the code and for predicate owner addresses. Codes with different padded chunk sequences have different roots.",
 ["inputs"],"all byte strings of any length",
 "snapshots pin twelve lengths that are multiples of four, from one RNG stream",
 ["src/contract.rs",T+"input.rs"],
 [("Contract::root_from_code","src/contract.rs"),("Input::predicate_owner",T+"input.rs")],
 observe=["Contract::root","Contract::root_from_code","Input::predicate_owner"])
p("C26","State roots and contract ids depend on content, not order",
 "The initial state root is the sparse Merkle root of the key-to-value map described by the slots: independent of their order, changed by any change of a key or value, and equal to the default root only for no slots. A contract id is the hash of the seed, salt, code root and state root, and the contract of a create transaction is exactly its bytecode witness, or an error if there is none.",
 ["inputs"],"all slot sets and permutations (distinct keys), all salts and codes, all create transactions",
 "two snapshots pin the empty and a one-slot set; no test permutes slots",
 ["src/contract.rs",T+"create.rs",T+"storage.rs"],
 [("Contract::initial_state_root, Contract::id, TryFrom<&Create>","src/contract.rs, "+T+"create.rs")],
 observe=["Contract::*"])
p("C27","Message ids, nonces and digests are the specified hashes",
 "Message ids are the SHA-256 of sender, recipient, nonce, amount and data in this order (8-byte nonce for inputs, 32-byte nonce for outputs), an output's nonce is the hash of transaction id and output index, and the digest is the hash of the data. A message-out receipt built from a transaction output carries exactly these values, and adding an unsigned message input stores the computed id.",
 ["inputs"],"all senders, recipients, nonces, amounts, data, transaction ids and indexes below 256",
 "no existing test computes these values independently",
 [T+"input.rs",T+"output.rs","src/receipt.rs","src/transaction.rs"],
 [("Input::compute_message_id, Output::message_id/message_nonce/message_digest",T+"{input,output}.rs"),("Receipt::message_out_from_tx_output","src/receipt.rs")],
 observe=["Input::compute_message_id","Output::message_*","Receipt::message_out_from_tx_output"])
p("C28","Preparing for execution blanks exactly the mutable fields",
 "Preparing a transaction for script execution blanks message outputs, change amounts and variable outputs and nothing else; preparing for predicate execution additionally blanks contract output roots, coin input pointers and contract input UTXO, roots and pointer, and nothing else. Both are idempotent and never change the transaction id, sizes or the number of elements.",
 ["inputs"],"every script and create transaction, every element mixture, every order of preparations",
 "tests/prepared_init.rs looks at one message and one variable output",
 [T+"input.rs",T+"output.rs","src/transaction.rs"],
 [("prepare_init_script / prepare_init_predicate",T+"{input,output}.rs, src/transaction.rs")],
 observe=["Executable::prepare_init_*","Output::prepare_init_*","Input::prepare_init_predicate"])
p("C29","The builder produces exactly the transaction described",
 "Whatever sequence of builder calls is made, the finished transaction contains exactly the parameters last set and all inputs, outputs and witnesses added, in order, each unsigned input pointing at its own witness; only the documented preparation (script preparation by default for scripts) is applied. Finalizing signs every unsigned input validly and leaves the cache computed, finalizing without signatures leaves the witnesses as they were, and checked finalization succeeds for valid transactions. The plain constructors store every argument in its field, with an empty receipts root, no cache, and for a create transaction the instruction count of its bytecode witness (zero if there is none).",
 ["histories"],"every sequence of builder calls for script, create and mint",
 "the builder is only used as a convenience in tests; its own output is never compared with the calls made",
 ["src/builder.rs","src/transaction.rs","src/transaction/id.rs"],
 [("TransactionBuilder","src/builder.rs"),("Transaction::script / create / mint","src/transaction.rs"),("add_unsigned_coin_input / add_unsigned_message_input","src/transaction.rs")],
 observe=["TransactionBuilder::finalize*"])
p("C30","Consensus parameter updates touch exactly one parameter",
 "Each parameter setter returns parameters equal to the original except for that one parameter, in any order of setting; parameters missing from a serialized form take the published default values, which are also the default instance and the published constants. The transaction offset in VM memory is the id, the size word and one asset/balance pair per allowed input.",
 ["configurations","inputs"],"all parameter values and sequences of setters, all subsets of serialized parameters",
 "existing tests use single setters with constants and never compare the other parameters",
 ["src/transaction/consensus_parameters.rs"],
 [("with_* and serde(default)","src/transaction/consensus_parameters.rs"),("tx_offset","src/transaction/consensus_parameters.rs")],
 observe=["ConsensusParameters"])
p("C31","The build without std gives the same answers",
 "Compiled without the standard library, the crate gives the same validity verdict, accepts and rejects the same transactions with errors naming real violations, and computes the same sizes, offsets, fees, roots, addresses and message ids as the specification that the standard build follows; its JSON form reads back to an equal value.",
 ["inputs","configurations"],"every transaction, height and parameter set under the alloc+serde configuration",
 "the no-std configurations are only compiled, never run, by the existing tests",
 ["src/transaction/checkable.rs","src/transaction.rs","src/contract.rs",T+"input.rs"],
 [("cfg(not(feature = std)) branches of next_duplicate and input_asset_ids_unique","src/transaction/checkable.rs, src/transaction.rs")],
 observe=["check_without_signatures","serialized_size","to_json"])
p("C32","Asset and contract listings reflect the inputs",
 "The listed input assets are, in order, one per coin input (its asset) and one per message input (the base asset); the unique listings of assets and contracts contain exactly those occurring, each once. Adding an unsigned coin or message input appends exactly one input that points at one newly appended empty witness, and leaves everything else unchanged.",
 ["inputs","histories"],"every transaction and every sequence of additions while witness indexes fit a byte",
 "no existing test looks at the listings",
 ["src/transaction.rs"],
 [("Executable","src/transaction.rs")],
 observe=["Executable::input_asset_ids*","input_contracts","add_unsigned_*"])
p("C33","Receipt constructors and accessors agree with the fields",
 "Every receipt constructor stores each argument in the field of that name and derives the payload length as documented (padded length of the data unless given), and every accessor returns the matching field for exactly the receipt kinds that have it and nothing for the others. Attaching a panic contract id affects panic receipts only, and execution results convert to words and back without loss for canonical values.",
 ["inputs"],"every receipt kind, constructor, argument and accessor",
 "the tests construct receipts only to encode them; accessors are not tested",
 ["src/receipt.rs","src/receipt/script_result.rs"],
 [("constructors and accessors","src/receipt.rs")],
 observe=["Receipt::*","ScriptExecutionResult"])
p("C34","Equality, hashing and ordering of values are lawful",
 "Two transactions or parts are equal exactly if all their content is equal, equal values hash equally and the cache takes no part in either. Two checked transactions are equal exactly if their content, metadata and recorded checks are. UTXO ids and transaction pointers are ordered lexicographically by their components, and storage slots are ordered by key, consistently with the byte order the protocol sorts by.",
 ["inputs"],"all pairs of values, near-equal pairs in particular, with and without cache",
 "equality is used by the tests but never tested itself",
 [T+"script.rs",T+"create.rs",T+"mint.rs",T+"storage.rs",T+"utxo_id.rs","src/tx_pointer.rs","src/receipt.rs"],
 [("derivative / derived PartialEq, Hash, Ord",T+"*.rs")],
 observe=["==","Hash","Ord"])
p("C35","Random values and factory transactions are what they claim to be",
 "Random UTXO ids, transaction pointers, storage slots, witnesses and test byte strings depend on the random source alone, and every part of a value varies; padded test byte strings are never empty and a multiple of 8 long. Every transaction of the test helpers' factory is determined by the seed, comes with exactly the keys of its signed inputs in their order, is fully and validly signed with one witness per signed input, owns its predicates, declares its bytecode correctly and survives a round-trip; among many, every input and output variant occurs.",
 ["inputs"],"every seed, kind of transaction and position in the factory's sequence",
 "the tests use the factory as a source of inputs for other checks; what it yields is never itself checked",
 ["test-helpers/src/lib.rs","src/tx_pointer.rs",T+"utxo_id.rs",T+"storage.rs",T+"witness.rs"],
 [("TransactionFactory","test-helpers/src/lib.rs"),("Distribution<_> for Standard",T+"*.rs, src/tx_pointer.rs")],
 observe=["TransactionFactory::*","Standard.sample","generate_bytes","generate_nonempty_padded_bytes"])
p("C36","Whatever decodes can be handled without a panic",
 "For any transaction, receipt, input, output or other part that decodes from any bytes, every operation its type offers finishes without a panic: sizes, offsets and encodings, ids and caching, text and binary serde forms, formatting, comparing and hashing, fees and metered size, basic and full checks under any block height and any limits (with a gas price factor of at least 1), conversions of the checked forms, element checks, listings, predicate ownership, preparation for scripts and predicates, adding inputs, signing, message identities and the contract and its root. The verdict, id and offsets are those the format and the rules give for the decoded fields.",
 ["inputs"],"every byte string that decodes, every height and limit, every operation",
 "the tests operate on well-formed transactions they built themselves, never on what hostile bytes decode to",
 [T+"*.rs","src/transaction.rs","src/transaction/checkable.rs","src/checked_transaction.rs","src/transaction/fee.rs","src/receipt.rs","src/contract.rs"],
 [("every public operation on a decoded value","src/*")],
 observe=["Transaction::*","Checkable::*","IntoChecked::*","TransactionFee::*","Signable::sign_inputs","Receipt::*"])
p("C37","A transaction means the same to its sender and its receivers",
 "However a transaction is passed on (generic, typed or in-place binary form, JSON, bincode, a clone, with or without a cache, before or after being checked), every holder sees the same fields, id and encoding, its basic and full checks accept exactly what the sender's accept, and what is accepted has the same balances, fee and recorded checks. Filling in the outcomes of execution (receipts root, contract roots, UTXO references of contracts, pointers, change, variable and message outputs) and passing the result on keeps id, size, fee and the validity of every signature. (Domain: predicate inputs carry a non-empty predicate.)",
 ["inputs","histories"],"every transaction and every chain of transports, followed by any filling in of outcomes",
 "the tests check, sign and serialise separately; none checks what was sent",
 [T+"*.rs","src/transaction.rs","src/checked_transaction.rs","src/checked_transaction/","src/transaction/txio.rs"],
 [("IntoChecked over what Deserializable and serde give","src/checked_transaction.rs")],
 observe=["to_bytes","from_bytes","serde","into_checked","into_checked_basic","check_signatures","id"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
