#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, level="model_checking",
         na=None, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, na=na, state=state))


TSB = "monero_glue/protocol/tsx_sign_builder.py"
TS = "monero_glue/protocol/tsx_sign.py"
TST = "monero_glue/protocol/tsx_sign_state.py"
TOK = "monero_glue/hwtoken/token.py"
KIS = "monero_glue/protocol/key_image_sync.py"
AG = "monero_glue/agent/agent_lite.py"
HTX = "monero_glue/xmr/sub/tsx_helper.py"
ADDR = "monero_glue/xmr/sub/addr.py"
MON = "monero_glue/xmr/monero.py"
RCT = "monero_glue/xmr/ring_ct.py"
MLS = "monero_glue/xmr/mlsag2.py"
BP = "monero_glue/xmr/bulletproof.py"
ESX = "states of the real device object explored exhaustively"

# ------------------------------------------------------------------ device: signing session
prop("P01", "Signing messages are accepted only in the one legal order",
     "While a transaction is being signed the device accepts a message only when it is the next one of the protocol: "
     "initialise, every input, permutation, every permuted input, inputs complete, every output (with its range-proof "
     "message after the last output of each batch when proofs are delegated), outputs complete, every signature, finish. "
     "A missing, repeated, early, late or surplus message, or one without an open session, is answered with a failure.",
     ["histories"], "every message of two sessions (and content-free variants) in every reachable device state, for "
     "in-device and delegated range proofs, both hard forks and client generations",
     "Tests run the honest order only; the quantifier is over all message sequences.",
     [TST, TSB, TS, TOK], [("phase machine", TST), ("step handlers", TSB), ("dispatch", TS)],
     "explicit-state search of the real device against a reference automaton",
     "Exhaustive over (reachable state x message alphabet) for the listed transactions; randomness fixed.")
prop("P02", "A refused or failed step ends the signing session",
     "After the device answers any signing message with a failure - malformed content, wrong order, wrong "
     "authentication code, an exception in the user interface, a rejection - nothing of that session can be continued: "
     "every later message except a new initialisation is refused, and a new initialisation then signs normally.",
     ["fault_sequences", "histories"], "every step of the session x every fault of a menu (corrupted field, wrong "
     "type, wrong phase, user-interface exception), followed by every continuation message",
     "Tests never inject a failure inside a signing session.",
     [TOK, TS, TSB], [("session drop", TOK), ("step error handling", TS)],
     "exhaustive fault injection at every step of the real device, all continuations",
     "Every (step, fault, continuation) of the listed transactions.")
prop("P03", "Nothing is signed without the user's approval of exactly this transaction",
     "For every transaction the user is asked exactly once, before any input is processed, and is shown exactly the "
     "outputs, fee, change, payment ID and unlock time that the session then binds; without a positive answer "
     "(rejected, interface failure) the session cannot proceed. A later initialisation replaces the earlier approval, "
     "and with two initialisations in flight only data the user approved can be signed.",
     ["schedules", "histories"], "all answers, all initialisation sequences of length three, all interleavings of two "
     "concurrent requests at the user-interface suspension points",
     "Tests auto-confirm; no schedule or rejection is tested.",
     [TS, TSB, TOK], [("confirmation before binding", TSB), ("session ownership", TOK)],
     "exhaustive interleavings of concurrent requests + all answer sequences on the real device",
     "Preemption points are the awaits on the user interface.")
prop("P04", "Outputs cannot differ from the confirmed ones",
     "Each output processed by the device is, in address, amount, subaddress flag and position, the one the user "
     "confirmed at that position; any altered, swapped, repeated, dropped or foreign-session output or authentication "
     "code is refused.", ["inputs", "histories"],
     "every single-field change and every bit of the authentication code, every assignment of outputs to positions, "
     "codes of another session, at every output step",
     "Tests only send the honest outputs.", [TSB], [("output HMAC", TSB + ": gen_hmac_tsxdest"), ("check", TSB + ": _s6_validate")],
     "exhaustive substitution of outputs/authenticators at every step of the real device",
     "All permutations-with-repetition of 3 outputs, all fields, all bits of the code.")
prop("P05", "Inputs cannot be changed, reordered or mixed after they were announced",
     "The inputs hashed into and signed in the transaction are exactly the announced inputs in the order of an "
     "accepted permutation (each exactly once); any altered source entry, prefix part, pseudo output, sealed secret "
     "or authentication code, any value taken from another input or session, and any vector that is not a permutation "
     "is refused or has no effect on the result.", ["inputs", "histories"],
     "all permutation vectors over a small range, every mix of fields from two inputs/sessions, every bit of each "
     "authentication code, boundary shifts between fields, at every input step",
     "Tests only send consistent honest messages.", [TSB], [("vini HMAC", TSB + ": gen_hmac_vini"),
                                                         ("signature step checks", TSB + ": sign_input")],
     "exhaustive field mixing/tampering at each input step of the real device",
     "Refusal or an unchanged, independently verified transaction is required for each tampering.")
prop("P06", "The transaction conserves money",
     "A completed transaction spends exactly the amounts of its inputs: they equal the sum of the confirmed output "
     "amounts plus the confirmed fee, and the published commitments balance with that fee; a transaction whose "
     "amounts do not balance, including by wrapping around or negative numbers, is never completed.",
     ["inputs"], "grid of fee, amount and input-amount deviations including 2^64 wrap-around",
     "Tests only use balanced transactions.", [TSB], [("sum check", TSB + ": all_out1_set"), ("pseudo outs", TSB)],
     "exhaustive grid of amounts through the real device with an independent balance check",
     "Deviations of each amount by 0, +-1 and 2^64/2^63 boundary values, alone and in pairs.")
prop("P07", "A completed signing session yields a transaction the network accepts",
     "For every supported shape of transaction (number of inputs, outputs, ring, subaddresses, change, payment ID, "
     "in-device or delegated range proofs, hard fork, client generation) whose messages follow the protocol the device "
     "completes, and the result verifies independently: prefix and message hash, key images, ring signatures, "
     "commitments, range proofs and balance.", ["configurations"],
     "all configurations in a small cube of those parameters", "Tests cover a handful of recorded transactions and "
     "verify them with the code under test itself.", [TSB, RCT, MLS, BP, HTX],
     [("builder", TSB), ("message hash", "monero_glue/xmr/sub/mlsag_hasher.py"), ("signature", MLS)],
     "exhaustive enumeration of configurations, each execution judged by an independent verifier",
     "Independent implementation of Monero's verification rules (mc/ref.py) is trusted.")
prop("P08", "Recipients, and only they, can find and spend their outputs",
     "Every output of a completed transaction can be found, decoded (amount and mask) and spent by the confirmed "
     "recipient address - standard, subaddress or integrated - using only the published transaction, and the "
     "recipient recovers the intended payment ID; other wallets do not recognise it.",
     ["configurations"], "all mixes of standard / subaddress / own outputs, with each kind of payment ID",
     "Tests check only that the sender's own wallet finds its change.", [TSB, HTX, MON],
     [("output keys", TSB + ": _s6_compute_tx_keys"), ("additional keys", HTX), ("payment id", TSB + ": process_payment_id")],
     "exhaustive enumeration of output-kind vectors x payment IDs, judged by an independent recipient wallet",
     "Reference wallet (mc/ref.py) trusted.")
prop("P09", "Suspending the device between messages changes nothing; devices are independent",
     "A signing session whose state is saved and restored between any two messages (power cycle, hand-over) gives "
     "the same replies as an uninterrupted one, and several devices serving messages in any interleaving behave as "
     "each would alone.", ["schedules", "crash_points"],
     "a save/restore at every subset of up to k message boundaries; all interleavings of two sessions with bounded preemptions",
     "Tests run one session at a time, straight through.", [TS, TSB, TOK],
     [("state save/restore", TSB + ": state_save"), ("module level state", TSB)],
     "preemption-bounded interleaving exploration + restore at every boundary of the real device",
     "Replies compared byte for byte with the uninterrupted run under per-message deterministic randomness.")
prop("P10", "Streaming transaction hashers equal the one-shot hash",
     "Feeding the transaction prefix and the pre-signature message in any chunking, with the state saved and restored "
     "at any point, gives the hash of the plain serialization as defined by Monero; the range-proof, output-key and "
     "encrypted-amount sections enter in protocol order regardless of how they are delivered.",
     ["inputs", "histories"], "all chunkings of short inputs, all save points, all counts of inputs/outputs in small range",
     "Tests hash a few recorded transactions.", ["monero_glue/xmr/sub/keccak_hasher.py", "monero_glue/xmr/sub/mlsag_hasher.py"],
     [("KeccakXmrArchive", "monero_glue/xmr/sub/keccak_hasher.py"), ("PreMlsagHasher", "monero_glue/xmr/sub/mlsag_hasher.py")],
     "exhaustive chunkings and save points against an independent hash",
     "Bounded sizes; reference keccak.")
prop("P11", "Delegated range proofs must cover every output, batch by batch",
     "When range proofs are computed by the host the device completes a transaction only if every output is covered by "
     "exactly one well-formed proof, delivered right after the last output of its batch (batches are consecutive outputs of "
     "the announced sizes), and the signed message commits to exactly the delivered proofs in that order; partitions that "
     "leave outputs uncovered, omitted or repeated proofs, and proofs made for another number of outputs or for other "
     "commitments are refused, and nothing but the proof of each batch enters the signed message.",
     ["inputs", "histories"], "all partitions vectors over a small range, all omission/insertion patterns of proofs",
     "Tests use one fixed partition.", [TSB], [("batching", TSB + ": _s6_range_proof"), ("completeness", TSB + ": all_out1_set")],
     "exhaustive partitions and delivery patterns through the real device", "Bounded to few outputs.")
prop("P12", "The transaction's secret keys can be recovered by the owner and by nobody else",
     "The sealed blob returned at the end of a session decrypts, with the owner's spend key, the transaction prefix "
     "hash and the returned salts, to exactly the transaction secret key followed by the additional keys matching the published "
     "public keys; with another wallet, transaction hash, salt or a modified blob it does not, and different "
     "transactions get different sealing keys.", ["configurations", "inputs"],
     "all configurations of additional keys; every single-bit corruption of a blob; every wrong parameter",
     "Tests never open the blob.", [TSB, "monero_glue/xmr/sub/tsx_helper.py"], [("final_msg", TSB + ": final_msg"), ("compute_tx_key", MON)],
     "exhaustive configurations and corruptions of the real blob", "Reference key derivation from the documented scheme.")
prop("P13", "Only owned and correctly valued inputs are signed",
     "The device produces a signature only for inputs whose one-time key in the ring belongs to the session's account "
     "(derivable from the given transaction keys) and whose ring commitment opens to the declared amount and mask; a "
     "source entry with wrong keys, index, amount, mask, ring position or subaddress never yields a signature.",
     ["inputs"], "every single- and pairwise field replacement from a menu of wrong values in a source entry",
     "Tests only announce correct inputs.", [TSB, MON], [("generate_key_image_helper", MON), ("sign_input", TSB)],
     "exhaustive substitution of source-entry fields through the real device",
     "Refusal anywhere before a signature is returned counts as protection.")
prop("P14", "Change goes only to the user's own address",
     "A transaction is accepted only if its declared change output is one of its outputs with the same amount and its "
     "address is the main address of the spending account; otherwise, and for any one change output paying a foreign "
     "address hidden from the user, the device refuses to start.", ["inputs"],
     "every combination of change address, amount, presence and number of outputs from a small menu",
     "Tests only use the wallet's own change.", [HTX, TSB], [("check_change", TSB + ": check_change"), ("own address", TSB)],
     "exhaustive combinations of change declarations against a reference rule", "Menu of addresses and up to 3 outputs.")
prop("P15", "Key image export follows its protocol and releases the key last",
     "A key image export is confirmed by the user, accepts exactly the announced number of outputs whose hash "
     "commits to the announced list in that order, and releases the decryption key only when all of them were processed and match; "
     "any other sequence - rejected, out of order, altered, too few or too many outputs, a finished or foreign "
     "export, two exports interleaved - never yields the key.", ["histories", "fault_sequences"],
     "all message sequences up to a depth over an alphabet of two exports",
     "Tests run one honest export.", [KIS, TOK], [("KeyImageSync", KIS), ("session", TOK)],
     "explicit-state search of the real device against a reference automaton", "Bounded number of outputs.")
prop("P16", "Exported key images are correct, signed and confidential",
     "Every key image exported is the key image of the given owned output, carries a valid ring signature over it "
     "with that output's key, and can be read only with the key released at the end; a single altered "
     "bit of an exported record is detected, as is a missing or surplus one, and outputs the wallet does not own, or with inconsistent data, are refused.",
     ["inputs"], "all kinds of outputs (main, subaddress, additional keys, index) and every bit corruption",
     "Tests compare one recorded export.", [KIS, "monero_glue/xmr/key_image.py", MON],
     [("export_key_image", "monero_glue/xmr/key_image.py"), ("encryption", KIS)],
     "exhaustive output kinds and corruptions, independent verification", "Reference crypto trusted.")
prop("P17", "The host completes signing for any transaction, and stops at the first failure",
     "The host agent drives a device to a complete transaction for every supported shape, in exactly the protocol "
     "order, and returns a transaction that verifies independently; whenever the device answers any step "
     "with a failure or an unexpected reply the agent reports an error and returns no transaction. When several "
     "transactions are asked for, all are returned, each of its own request and in order, or an error is reported. The device is told of exactly the outputs "
     "which pay an integrated address the user entered.",
     ["configurations", "fault_sequences"], "all small transaction shapes; a failure or wrong-typed reply at each message",
     "Tests run two recorded transactions with an honest device.", [AG, HTX],
     [("Agent.sign_transaction_data", AG), ("TData", AG)],
     "exhaustive shapes and fault injection at every message of the real agent", "Device is the real device or a scripted stand-in.")
prop("P18", "The host does not accept a transaction the device tampered with",
     "If any security-relevant field of any device reply (output key or commitment, prefix or message hash, ring signature) is altered "
     "so that the resulting transaction would be invalid, the host agent fails instead of returning a transaction "
     "that does not verify.", ["fault_sequences"], "one corruption of every field of every reply",
     "Tests use an honest device.", [AG], [("checks in the agent", AG)],
     "exhaustive single-field corruption of replies against the real agent", "One fault per run.")
prop("P19", "Range-proof batches partition the outputs",
     "For every number of outputs and every supported range-proof variant the computed batch sizes are positive, powers of two except where one "
     "proof covers all outputs, at most the maximal batch, and sum to the number of outputs; small transactions are not delegated.",
     ["inputs"], "all counts 1..200 and all variants", "Tests sample a few counts.", [AG, HTX],
     [("compute_rsig_batch_sizes / set_tsx_rsig", HTX)], "exhaustive enumeration of all counts", "Complete for the bounded counts.")

# ------------------------------------------------------------------ encodings
prop("P20", "Base58 coding is a faithful bijection with strict validation",
     "Monero base58 decoding inverts encoding for every byte string and accepts only canonical encodings (no overflowing block, no invalid "
     "character or block length - always signalled as an error), and the checksummed variants detect a wrong "
     "checksum or tag; standard base58/base58check encode and decode likewise.", ["inputs"],
     "all short byte strings and all short texts over a covering alphabet, block boundaries, and every single-character change of an address",
     "Tests use a few addresses.", ["monero_glue/misc/b58_mnr.py", "monero_glue/misc/b58.py"],
     [("encode/decode block", "monero_glue/misc/b58_mnr.py"), ("base58check", "monero_glue/misc/b58.py")],
     "exhaustive enumeration of short inputs against an independent codec", "Bounded lengths.")
prop("P21", "Addresses decode to exactly the encoded keys, kind and network",
     "Encoding any key pair as a standard, subaddress or integrated address of any network and decoding it returns "
     "the same keys, network, kind and payment ID; malformed addresses (wrong length, checksum, unknown type) "
     "are rejected; two addresses classify as change/destination correctly.", ["inputs"],
     "all networks x kinds x key menus; all payload lengths; every single-character corruption",
     "Tests decode a few addresses.", [ADDR, "monero_glue/xmr/monero.py"], [("decode_addr/encode_addr", ADDR), ("classify", ADDR)],
     "exhaustive enumeration of kinds/networks/lengths/corruptions", "Key menu bounded.")
prop("P22", "A wallet recognises exactly the outputs sent to it",
     "Given subaddress tables, scanning an output returns the correct subaddress index, spend key and key image for every output sent to "
     "any address in the table via the main or an additional transaction key, and never for outputs sent to others.",
     ["inputs"], "all (account, minor) pairs, output indices, key kinds in small ranges",
     "Tests scan few outputs.", [MON], [("subaddress derivation", MON), ("is_out_to_account", MON)],
     "exhaustive enumeration against a reference wallet", "Small ranges of indices.")
prop("P23", "Hidden amounts and masks decode to what was encoded",
     "For both encodings, every amount below 2^64 and mask encrypted for an amount key decrypts with the same "
     "key to the same values, matching Monero's definition; encoding does not alter its arguments.", ["inputs"],
     "boundary amounts x masks x keys", "Tests use a few recorded values.", [RCT, "monero_glue/xmr/sub/recode.py"],
     [("ecdh_encode/decode", RCT)], "exhaustive boundary grid against reference", "Grid.")
prop("P24", "Transaction extra and payment IDs are built and parsed consistently",
     "The extra field built from a transaction key, additional keys and payment ID parses back to the same; "
     "parsing arbitrary extra bytes either yields fields consistent with the format or raises; payment ID "
     "encryption is an involution with the right key and matches Monero.", ["inputs"],
     "all combinations of fields; all short byte strings", "Tests parse a few extras.", [HTX, MON],
     [("extra building/parsing", HTX)], "exhaustive enumeration of short extras against a reference parser", "Bounded length.")
prop("P25", "Monero mnemonics round-trip and detect wrong checksum words",
     "Every seed encodes to words (with checksum word) that decode to the same seed, given as a list or as a string, "
     "and a phrase with an incorrect checksum word, unknown word, or impossible word triple is rejected.", ["inputs"],
     "boundary seeds; every replacement of the checksum word by another word of the phrase; every word triple boundary",
     "Tests encode one seed.", ["monero_glue/xmr/core/mnemonic.py"], [("mn_encode/mn_decode", "monero_glue/xmr/core/mnemonic.py")],
     "exhaustive enumeration of word substitutions and boundary seeds", "Bounded seeds.")
prop("P26", "Wallet keys derive deterministically from BIP-39/BIP-32 or Monero seeds",
     "BIP-39 phrases convert to seeds as the standard says, BIP-32 and SLIP-0010 derivation give the standard's node for every path, index, "
     "private or public parent and order of earlier derivations, and the spend and view keys derived from a master seed or mnemonic are those of the documented derivation.",
     ["inputs"], "boundary entropies of every length, every last word, path components at hardened boundaries",
     "Tests use few vectors.", ["monero_glue/xmr/sub/seed.py", "monero_glue/misc/bip/bip39.py", "monero_glue/misc/bip/bip32.py"],
     [("SeedDerivation", "monero_glue/xmr/sub/seed.py"), ("Wallet", "monero_glue/misc/bip/bip32.py")],
     "exhaustive boundary enumeration against an independent BIP-39/32", "Bounded.")
prop("P27", "Messages survive the wire unchanged and damaged messages are refused",
     "Every message of the device protocol, with any field absent, empty, extreme or repeated, encodes to standard protocol "
     "buffers bytes which decode to an equal message; unknown fields are skipped; truncated or malformed encodings raise "
     "instead of yielding a message with made-up content.", ["inputs"],
     "all message types x per-field value menus; every truncation point; every unknown-field position",
     "Tests round-trip one or two messages.", ["monero_glue/protobuf.py", "monero_glue/protocol_base/messages.py"],
     [("dump_message/load_message", "monero_glue/protobuf.py")],
     "exhaustive enumeration of types, fields, truncations against an independent wire decoder", "Bounded values.")

# ------------------------------------------------------------------ cryptography
prop("P30", "Elliptic-curve operations agree with the curve's definition on both backends",
     "Point and scalar operations (encode/decode, add, subtract, multiply, reduce, invert, hash to scalar and point, derivations) give the "
     "mathematically correct result for every operand, including zero, identity, small-order, order-boundary and "
     "unreduced encodings, identically on the native and the pure-Python backend; invalid encodings are rejected.",
     ["inputs", "configurations"], "cross product of boundary operands for every operation and both backends",
     "Tests use random and few fixed operands.", ["monero_glue/xmr/core/ec_py.py", "monero_glue/xmr/core/ec_trezor.py", "monero_glue/xmr/crypto.py"],
     [("backends", "monero_glue/xmr/core/ec_py.py"), ("native backend", "monero_glue/xmr/core/ec_trezor.py")],
     "exhaustive cross product of boundary operands vs reference arithmetic", "Operand menu.")
prop("P31", "Ring signatures verify exactly when honestly made",
     "Every ring signature variant verifies for every ring size and position of the real key when made with the real secrets, and is rejected when any "
     "element of the signature, ring, key image, pseudo output or message is changed, or when the secrets do not match the ring.", ["inputs"],
     "all ring sizes/positions in a small range; a change of every element",
     "Tests verify a couple of signatures.", [MLS, RCT, MON], [("mlsag2", MLS), ("ring_ct", RCT)],
     "exhaustive sizes x positions x element corruption", "Small rings; independent verifier.")
prop("P32", "Range proofs are accepted exactly for committed values in range",
     "A Bulletproof or Borromean range proof made by any of the provers for any batch of amounts verifies (with the library and "
     "independently, singly and in a batch), and is rejected when any proof element or commitment is altered, missing or swapped; "
     "no proof is accepted for a value outside 0..2^64-1, even from a dishonest prover.", ["inputs"],
     "boundary amounts x batch sizes; change of every element", "Tests prove few values.", [BP, "monero_glue/xmr/bulletproof_cl.py"],
     [("prover/verifier", BP)], "exhaustive element corruption over boundary amounts", "Bounded batch sizes.")
prop("P33", "Range-proof blinding is fresh and secret",
     "Two proofs of the same amounts and masks made in separate runs use independent, unpredictable blinding: no proof element "
     "repeats unless by design, and the amounts or masks cannot be recovered from the published proof by an observer knowing only the code.",
     ["histories"], "all pairs of runs over prover variants", "Tests check validity only.", [BP],
     [("blinding generation", BP)], "exhaustive prover variants; differential runs under controlled randomness",
     "Dependence of blinding on the randomness source is what is decided.")
prop("P34", "Interrupted and stepwise range proving gives a valid proof",
     "Stepwise proving, with the prover state dumped and reloaded at any step and with any number of offloaded "
     "chunks, produces a proof that verifies and equals the uninterrupted one.", ["crash_points", "configurations"],
     "dump/reload at every step for each batch size and offloading variant", "Tests run a fixed stepping.", [BP, "monero_glue/xmr/bulletproof_cl.py"],
     [("prove_s1 steps", BP)], "exhaustive suspension points", "Bounded batch sizes.")
prop("P35", "Sealed data opens only unmodified and with the right key",
     "Every symmetric encryption returns the plaintext for every length when opened with the same key, and "
     "authenticated variants refuse every modified, truncated or extended ciphertext, nonce, tag or wrong key or associated data.", ["inputs"],
     "all lengths 0..130, every bit of a sealed message", "Tests seal one message.",
     ["monero_glue/xmr/enc/chacha_poly.py", "monero_glue/xmr/enc/chacha.py", "monero_glue/xmr/enc/aescbc.py"],
     [("chacha_poly", "monero_glue/xmr/enc/chacha_poly.py")], "exhaustive lengths and bit flips against reference ciphers", "Bounded lengths.")
prop("P36", "Hash and MAC helpers are correct for every chunking and length",
     "Keccak, HMAC, PBKDF2 and the generator built on them give the standard result for any input length and "
     "any chunking; copies are independent of the original.", ["inputs"],
     "all lengths over three block sizes, all two-way splits", "Tests use few vectors.",
     ["monero_glue/xmr/core/backend/keccak2.py", "monero_glue/xmr/core/ec_py.py"], [("keccak", "monero_glue/xmr/core/backend/keccak2.py")],
     "exhaustive lengths and splits vs independent implementation", "Bounded lengths.")

# ------------------------------------------------------------------ helpers, PoC
prop("P37", "Range-proof vectors are arrays",
     "The vector classes of the range prover (memory-backed, chunked, lazily evaluated, sliced, power, repeating) behave as plain arrays of scalars or points: under "
     "any sequence of reads, writes, resizes, re-initialisations and slices an access yields exactly the element at that index or is refused, and a refused access "
     "leaves later accesses correct; vector arithmetic is exact.", ["inputs", "histories"],
     "all operation sequences to a depth over all vector kinds, sizes and chunkings", "Tests read vectors in order, once.", [BP],
     [("KeyV", BP), ("KeyVPowers", BP)], "exhaustive bounded operation sequences on the real classes vs an array model", "Bounded depth and sizes.",
     level="model_checking")
prop("P40", "Planning, permutation and indexing helpers are exact",
     "Applying a permutation to a list (by value or through a swapper) yields the permuted list, non-permutations are refused, chunking partitions a "
     "sequence, conversion between absolute and relative ring offsets is inverse in both directions, the split of outputs into range-proof batches covers every output "
     "exactly once with permitted batch sizes, and translating source entries, destinations and proof structures between host and device form preserves every field and leaves the originals unchanged.",
     ["inputs"], "all permutations and vectors to length 6; all lengths and sizes; all output counts; all small offset lists",
     "Tests sample.", ["monero_glue/xmr/common.py", HTX], [("permutation", "monero_glue/xmr/common.py")],
     "exhaustive small-scope enumeration", "Small scope.")
prop("P41", "Amounts and transfers are what the user typed and confirmed",
     "An amount converted from text to atomic units and back is exact for every amount representable with 12 decimals, malformed or over-precise input is rejected rather than rounded; "
     "the transfer or sweep requested from the wallet has exactly the destinations, amounts, ring size, priority and key image that were typed, commands that cannot be understood "
     "completely request nothing; nothing is requested or signed without a yes; and the amounts shown for confirmation on host and device are exact; the device shows each output, the change as such, fee, payment ID, unlock time, ring size, inputs and account as they are.",
     ["inputs"], "boundary integers and all decimal lengths; all commands over a token menu; all answers", "Tests do not cover it.",
     ["monero_poc/agent.py", "monero_poc/utils/misc.py", "monero_poc/trezor.py", "monero_glue/xmr/wallet.py"],
     [("conversion", "monero_glue/xmr/wallet.py"), ("transfer_cmd", "monero_poc/agent.py")], "exhaustive boundary and command enumeration", "Boundary grid, bounded menu.")
prop("P42", "A crash while saving an account never loses the account",
     "At every crash point (and with every single failing write) while an account, watch-only or wallet key file is written, the file afterwards holds either the complete "
     "previous or the complete new contents, and saving again afterwards works; a file is opened only with its password.", ["crash_points"], "every prefix of the file-system operation log with every loss of unsynced data",
     "Tests never crash a save.", ["monero_poc/agent.py", "monero_poc/trezor.py", "monero_glue/xmr/wallet.py"], [("save_account", "monero_poc/agent.py")],
     "exhaustive crash-point enumeration of the recorded file operations", "Model of POSIX rename/truncate semantics.",
     level="model_checking")
prop("P43", "A confirmation belongs to the question the user saw",
     "Under every interleaving of questions from the device and commands from the user, an answer confirms or rejects only the transaction "
     "or export that was displayed when it was given, what is displayed belongs to one question, no answer to the displayed question is lost, and stray or repeated answers confirm nothing.", ["schedules"],
     "all thread interleavings up to a preemption bound of two requests and up to three user actions", "Tests do not run the prompt.", ["monero_poc/trezor.py", "monero_poc/utils/misc.py"],
     [("TokenInterface", "monero_poc/trezor.py")], "stateless exploration of all interleavings of the real code under a controlled thread scheduler", "Bounded requests and preemptions; line granularity.",
     level="model_checking")
prop("P44", "Key files, unsigned sets and exports round-trip; damage is refused",
     "A keys file written for any wallet data and password, an unsigned transaction set and an output export loads back to the same data and leaves the caller's data unchanged; "
     "loading with another password or key, or truncated, raises; damage at any position of an authenticated file raises.", ["inputs"], "menu of key data x passwords; every byte damage position",
     "Tests load one file.", ["monero_glue/xmr/wallet.py"], [("gen_keys_file/load_keys_file", "monero_glue/xmr/wallet.py")],
     "exhaustive damage positions on the real codec", "Bounded data; key files carry no MAC.")
prop("P45", "Restore heights are safe for every date",
     "For any chain of non-decreasing block times and any date from before the genesis on, the height found for the date is not above the first block of that date, "
     "not uselessly early, monotone in the date and found in a bounded number of requests within the chain; a date after the tip is refused. The restore dialogue returns only a non-negative height which the user was "
     "shown and confirmed.", ["inputs", "histories"], "menu of chains x all dates where the answer can change; all dialogues to three entries", "Tests do not cover it.",
     ["monero_glue/xmr/wallet.py", "monero_poc/agent.py"], [("get_blockchain_height_by_date", "monero_glue/xmr/wallet.py")], "exhaustive enumeration of dates and dialogues on the real code against a synthetic daemon", "Menu of chains.")
prop("P46", "The transaction builder emits the transaction asked for",
     "Building unsigned transaction data from sources, destinations, change, fee, unlock time and payment ID yields data whose sources (with every ring sorted by index and the real output marked), "
     "destinations, change, subaddress account and indices, unlock time, payment ID and extra are exactly those requested, also after shuffling; what was built can be described and written to and read from an unsigned set.",
     ["inputs"], "all small combinations of sources, destinations and options", "Tests build few.",
     ["monero_glue/xmr/transaction_builder.py"], [("TransactionBuilder", "monero_glue/xmr/transaction_builder.py")],
     "exhaustive small-scope enumeration", "Small scope.")
prop("P47", "The watch-only wallet that is set up belongs to the connected device",
     "Whatever the source of credentials (device, command line, account file): view key and address which do not belong together, damaged credentials and refusals are noticed, nothing of them is taken over and no file is written; "
     "right ones give key and account files which open again and hold exactly the wallet's keys. A key file found is never changed, and one of another wallet or password is not used unless --no-init is given. After every sequence of account switches "
     "and credential loads the host shows the wallet's own address of that account; the transfer, sign and key_image_sync commands do nothing when the device connected does not answer with that address; and a device hands out its credentials only for its own network.",
     ["inputs", "histories"], "every source x kind of credentials x key file found x options; every sequence of account switches and loads; every command x state of the wallet process x device connected", "Tests cover none of it.",
     ["monero_poc/agent.py", TOK], [("open_with_keys", "monero_poc/agent.py"), ("get_view_key", TOK)], "exhaustive enumeration of set-ups and histories on the real host in a scratch directory", "Menus of credentials; history depth 2 (3 thorough).")
prop("P48", "What the wallet asked to be signed is what it gets back",
     "Signing an unsigned set returns and writes a signed set holding every transaction of it in order, each valid for its sources and destinations, with each key image at the place of its transfer, in the layout its version has, together with "
     "stored proof data its owner can open. When any message of a run fails, or the user declines, nothing is returned, written as signed or submitted. Key image synchronisation imports the right image for every exported output in order.",
     ["inputs", "fault_sequences"], "all small unsigned sets and exports x failure of every message x every confirmation pattern", "Tests sign single recorded sets.",
     ["monero_poc/agent.py", "monero_glue/xmr/wallet.py", AG], [("sign", "monero_poc/agent.py"), ("dump_signed_tx", "monero_glue/xmr/wallet.py"), ("import_outputs", AG)],
     "exhaustive enumeration of sets, faults and answers on the real host, agent and device", "Small scope.")
prop("P50", "The link between agent and simulated device carries messages unchanged or fails",
     "Every message sent over the REST link arrives exactly once and equal at the other end. A signing, export or watch-only run over it gives what it gives with the device at hand; a lost, damaged, foreign or error answer at any message, "
     "a refusal by the user, an unready device or one which raises makes the run fail, with no transaction, key image or credentials coming out.",
     ["inputs", "fault_sequences"], "every message type and field menu in both directions; every fault at every message of a run", "Tests do not use the link.",
     ["monero_poc/trezor.py", "monero_poc/utils/trezor_server_proxy.py"], [("TokenProxy", "monero_poc/utils/trezor_server_proxy.py"), ("TrezorServer", "monero_poc/trezor.py")],
     "exhaustive fault injection at every message of real runs of client and server", "HTTP layer replaced by the application's test client.")
prop("P51", "The wallet process is started, watched and asked exactly as configured",
     "The wallet program is run with exactly the configured paths, daemon address and network, however they are spelt, and gets the wallet password and a fresh unpredictable RPC password (which the client then uses) on its input only. "
     "Its output lines are reported and readiness is noticed however the output is split between reads; however it ends, it is no longer taken for running, and the user is told if the end was not asked for. The RPC clients send exactly the requested method, parameters and credentials "
     "to the configured wallet and daemon, and a failed request never counts as an answer.",
     ["inputs", "schedules", "fault_sequences"], "every split of the output on both streams, every end and failing call, menus of awkward names, methods, credentials and answers", "Tests cover none of it.",
     ["monero_poc/agent.py", "monero_poc/utils/misc.py", "monero_glue/xmr/wallet_rpc.py", "monero_glue/xmr/daemon_rpc.py"], [("wallet_rpc_main", "monero_poc/agent.py"), ("WalletRpc.request", "monero_glue/xmr/wallet_rpc.py"), ("DaemonRpc.request", "monero_glue/xmr/daemon_rpc.py")],
     "exhaustive exploration of schedules and faults of a stand-in process against the real watcher", "Output split into up to three pieces.")
prop("P52", "Seed, account and set-up tools use exactly the seed given",
     "For every kind of seed (BIP-39 phrase with passphrase in any Unicode form, word indices, master secret, Monero phrase or secret), however it is typed, and every derivation option, the seed tool prints "
     "the keys, phrase, network addresses and subaddress table which follow from it; conflicting options and damaged input give no keys. New wallets have an address which belongs to the printed keys on the chosen "
     "network, and no key repeats. The device set-up tool wipes the device on the chosen connection once and loads exactly the phrase, PIN, label, language and passphrase setting given.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of seed kind, typing, derivation, passphrase and network options; all option combinations and failing steps of the set-up tool",
     "No test runs the tools.", ["monero_poc/seed.py", "monero_poc/generate_creds.py", "monero_poc/trezor_init.py", "monero_poc/trezor_address.py", "monero_glue/xmr/sub/seed.py", "monero_glue/misc/bip/bip39_deriv.py"],
     [("amain", "monero_poc/seed.py"), ("main", "monero_poc/trezor_init.py"), ("mnemonics_to_seed", "monero_glue/misc/bip/bip39_deriv.py")],
     "exhaustive enumeration of invocations of the real tools against an independent derivation", "A fixed set of seeds per kind; device library replaced by recording stand-ins.")
prop("P53", "A hardware device is asked exactly what the host asks, and must prove images",
     "The proxy of a hardware device sends every request once, in a connection opened for it and closed after it (after failures too), with the same fields and bytes, returns the reply with every field, and reports every failure. "
     "In a live refresh the host asks about exactly the output it was given and returns its key image only if the reply was sealed for the wallet's view key and carries a valid proof; any other reply is an error.",
     ["inputs", "histories", "fault_sequences"], "every protocol message through every request method, all request sequences up to three with failing steps; every bit change, truncation and substitution of live refresh replies",
     "The tests of this part need a connected device and are not run.", ["monero_glue/trezor/manager.py", "monero_glue/protocol_base/messages.py", "monero_glue/agent/agent_lite.py", "monero_glue/xmr/ring_ct.py"],
     [("Trezor", "monero_glue/trezor/manager.py"), ("live_refresh", "monero_glue/agent/agent_lite.py")],
     "exhaustive exploration of request histories and device replies against a reference device", "Sequences of up to three requests (four in depth).")

prop("P54", "What is submitted is what the device signed, after a yes",
     "Whatever the wallet replies to a transfer or sweep, the user answers and the device does: a set is given to the device only if the wallet made it and every question was answered yes, with amount and fee of each "
     "of its transactions shown exactly before (sweep_dust asks only on the device); only what the device signed is submitted, once, after a yes; the wallet is never asked to relay by itself; a refusal, error or damaged reply ends it there; and success is reported exactly when the wallet accepted the submission.",
     ["fault_sequences", "histories"], "every command x reply to the request x answers x signing outcome x reply to the submission",
     "Tests do not run the commands.", ["monero_poc/agent.py"],
     [("sign_unsigned", "monero_poc/agent.py"), ("transfer_params", "monero_poc/agent.py"), ("sweep_cmd", "monero_poc/agent.py")],
     "exhaustive exploration of the real commands under every combination of replies, answers and failures", "Menus of replies.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if p["na"]:
            na.append({"property": i, "reason": p["na"]})
        elif os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            cmd = "PYTHONHASHSEED=0 /opt/venv/bin/python -m mc.run %s --tier %%s" % i
            checks.append({"property": i, "quick_cmd": cmd % "quick", "thorough_cmd": cmd % "thorough",
                           "technique": "model checking: " + p["technique"], "level": p["level"],
                           "level_note": p["note"], "evidence_file": "evidence/%s.json" % i})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "PYTHONHASHSEED=0 /opt/venv/bin/python -m mc.selftest",
         "hooks": {"guard": "MC_HOOKS", "enable": "no hooks are needed: the checks drive the code through its own interfaces",
                   "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All checks: python -m mc.run <ID> [--tier quick|thorough]; see DESIGN.md. Repairs of defects found are "
                  "fix: commits in /repo, listed in known_findings.txt."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
