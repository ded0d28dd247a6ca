p("C01", "Clarity values encode to the SIP-005 consensus layout",
  "Serializing any Clarity value yields exactly its SIP-005 bytes: the type's one-byte prefix, then the payload in the specified order and width (128-bit big-endian integers, 4-byte big-endian length prefixes, address version byte followed by the 20-byte hash, one-byte length for names, elements in order). Serialization fails exactly when a name is longer than 128 bytes, a length does not fit 32 bits, an address is invalid, an ASCII string holds a non-ASCII character, or a nested value fails.",
  ["inputs"], "every value of every Clarity type, and the bare length-prefixed names and function-argument lists used in transactions",
  "Tests pin a few literal values per type; every length, nesting, name length and integer is needed.",
  ["clarity/impl.rs", "clarity/mod.rs"], [("Codec::encode implementations", "clarity/impl.rs"), ("length limits", "clarity/impl.rs")],
  "Each encoder's abstract summary (all partitions, loops widened to closed form) is compared with the summary of a reference encoder written from SIP-005; equality covers all inputs. c32 address decoding and nested encoders are uninterpreted and shared by both sides.")
p("C02", "Decoding Clarity bytes reads exactly what encoding writes",
  "Decoding bytes as a given Clarity type succeeds exactly on inputs that start with a well-formed encoding of that type and returns the value encoded there: same integers, same bytes, same strings (validated as UTF-8, and as ASCII for ASCII strings), same elements in the same order, names of at most 128 bytes, with trailing bytes ignored. Truncated input and malformed content are rejected with an error.",
  ["inputs"], "every byte string and every Clarity type, including lists, tuples and function-argument lists of any length",
  "Tests decode a handful of well-formed vectors and never truncated, oversized or mistyped ones.",
  ["clarity/impl.rs", "clarity/mod.rs"], [("Codec::decode implementations", "clarity/impl.rs")],
  "Decoder summaries are compared with reference decoders; list and tuple loops are matched as recurrences. Nested decoding is uninterpreted and shared.")
p("C03", "The generic Clarity decoder dispatches on the type prefix alone",
  "Decoding bytes without naming a type selects the decoder that belongs to the first byte for each of the fifteen SIP-005 type prefixes, returns that decoder's result, and rejects empty input and every other first byte with an error.",
  ["inputs"], "every byte string",
  "Tests hit some prefixes; none iterate all 256 or check that no prefix is routed to a different type.",
  ["clarity/mod.rs", "clarity/impl.rs"], [("type dispatch", "clarity/mod.rs decode_clarity_type")],
  "The dispatcher's summary is compared, over all 256 first bytes and the empty input, with the reference table; the type-specific decoders are uninterpreted.")
p("C04", "Decoding untrusted bytes never panics",
  "Decoding an arbitrary byte string, as a named Clarity type or generically, always returns a value or an error and never panics (out-of-range indexing, arithmetic overflow, failed unwrap, or unimplemented code). Stack exhaustion by deeply nested input is excluded.",
  ["inputs"], "every byte string, including empty, truncated and adversarial lengths",
  "A test can only sample malformed inputs; every index and slice must be covered by a length check for all lengths.",
  ["clarity/impl.rs", "clarity/mod.rs"], [("length checks before indexing", "clarity/impl.rs")],
  "Every panicking outcome (bounds, overflow, unwrap, explicit panic) reachable in the decoders' MIR must be refuted by the facts of its partition.")
p("C05", "Transactions encode to the SIP-005 wire layout",
  "Serializing any transaction yields exactly the SIP-005 bytes: version (0x00 mainnet, 0x80 testnet), 4-byte chain id, authorization (type byte 4 or 5, then the origin and, if sponsored, the sponsor spending condition), anchor mode, post-condition mode, post-conditions, payload. A single-signature condition is hash mode, 20-byte signer, nonce, fee (8-byte big-endian each), key encoding 0 and the 65-byte signature; a multi-signature condition is hash mode, signer, nonce, fee, a 4-byte field count, each field as a type byte (0 public key, 2 signature) plus its bytes in the order added, and the required signature count as two bytes.",
  ["inputs"], "every transaction with either authorization kind and every spending condition, with any number of signature fields",
  "Tests compare a few complete transactions; every fee, nonce, mode, field list and enum combination matters for consensus.",
  ["transaction/base.rs", "transaction/auth.rs", "transaction/condition.rs"], [("Codec::encode of the transaction parts", "transaction/*.rs")],
  "Summaries of the four encoders (fields loop in closed form) equal the reference encoders' summaries; nested dynamic parts are uninterpreted and shared.")
p("C06", "Payloads encode to, and decode from, their SIP-005 layout",
  "A token transfer built from a recipient, amount and memo serializes as type 0, the recipient principal, the amount as 8 big-endian bytes and the memo zero-padded to 34 bytes, and fails exactly when the memo is longer than 34 bytes or the recipient fails; a contract call, likewise from the parts it was built from, serializes as type 2, contract address, contract name, function name, and the 4-byte-counted arguments. Decoding returns the fields stored at those positions, picks the payload kind by the first byte only, and returns an error, never a panic, for truncated input, unknown kinds and malformed content.",
  ["inputs"], "every payload value, and every byte string given to the payload decoders",
  "Tests encode a few payloads and decode none that is truncated or mistyped.",
  ["transaction/payload.rs"], [("payload codecs", "transaction/payload.rs")],
  "Encoder and decoder summaries, panicking outcomes included, equal the reference summaries.")
p("C07", "Post-conditions encode to their SIP-005 layout",
  "A post-condition list holds, copies and yields exactly the conditions it was given and serializes as a 4-byte count followed by them in order. STX, fungible and non-fungible conditions serialize, from the parts they were built from, as type 0, 1 or 2, the principal (2 and an address, or 3, an address and a contract name), the asset (address, contract name, asset name) where there is one, the asset value for non-fungible ones, the condition code's SIP-005 byte and the 8-byte amount where there is one, and fail exactly when the principal is not a valid standard or contract principal or a name or address is invalid.",
  ["inputs"], "every post-condition of the three kinds with every principal, asset, code and amount, and lists of any length",
  "Tests check single literal conditions.",
  ["transaction/condition.rs"], [("post-condition encoders", "transaction/condition.rs")],
  "Encoder summaries equal the reference summaries.")
p("C08", "Signature hashes and recoverable signatures follow SIP-005",
  "The pre-signing hash is SHA-512/256 of the current hash, the authorization byte, fee and nonce (8-byte big-endian, in that order); the post-signing hash is SHA-512/256 of the pre-signing hash, key encoding 0 and the 65 signature bytes. Signing signs the pre-signing hash with the given key and returns the recovery id followed by the 64 compact bytes together with the post-signing hash; verification rejects malformed signatures and otherwise recovers the key for the same pre-signing hash and returns the same next hash.",
  ["inputs"], "every hash, authorization byte, fee, nonce, secret key and 65-byte signature",
  "Tests sign fixed transactions; the order and width of every hashed field for all values is what keeps signatures valid.",
  ["crypto/hash.rs"], [("sighash construction", "crypto/hash.rs"), ("signature packing", "crypto/hash.rs")],
  "Summaries equal references with SHA-2 and secp256k1 as uninterpreted functions; a digest is identified by algorithm and exact preimage layout.")
p("C09", "Digests and public-key hashes are the standard constructions",
  "SHA-256, double SHA-256, SHA-512/256 and HASH160 (RIPEMD-160 of SHA-256) digests are of exactly the given bytes; checksums are the first four digest bytes; conversions to and from byte arrays, vectors and hex neither change nor reorder bytes. Public-key hashing is HASH160 of the key (P2PKH), of its version-0 witness program (P2WPKH), of the m-of-n CHECKMULTISIG script (P2SH), or of 00 20 and the SHA-256 of that script (P2WSH), for at most 16 keys with compressed keys in the given order.",
  ["inputs"], "every byte string, key and key list (at most 16 keys and required signatures)",
  "Tests compare a few digests; no test covers all key counts or lengths.",
  ["crypto/hash.rs", "crypto/c32.rs"], [("hash newtypes", "crypto/hash.rs"), ("script hashing", "crypto/c32.rs")],
  "Summaries equal references; digests are uninterpreted functions of algorithm and preimage layout.")
p("C10", "Spending conditions keep, sign over and verify exactly their own state",
  "A new single- or multi-signature condition holds the given mode, fee and nonce, the key hash its mode prescribes, and no signature; setters change only their field; clearing zeroes fee, nonce and signatures and nothing else; only the matching kind of signature or key can be added, appended in order. Verification succeeds exactly when the key recovered (for multi-signature: the listed and recovered keys in order, with at least the required number of signatures, each hash chained from the previous one) hashes to the stored signer, using the condition's own fee and nonce, and returns the last chained hash.",
  ["inputs", "histories"], "every condition state (at most 16 signature fields), key, hash and authorization byte; state changes of every public operation from every state",
  "Tests verify a few valid transactions and never forged, reordered or partially signed ones.",
  ["transaction/condition.rs", "crypto/hash.rs", "crypto/c32.rs"], [("SpendingCondition implementations", "transaction/condition.rs")],
  "Summaries of every operation (multi-signature verification as a recurrence over the fields) equal the reference summaries; recovery and digests uninterpreted.",
  state=["mode, fee, nonce, signer, signatures of a spending condition"])
p("C11", "Authorization verifies every signer with the right flag",
  "Verifying an authorization verifies the origin with the standard flag (4) starting from the given hash and, when sponsored, the sponsor with the sponsored flag (5) starting from the hash the origin's verification returned, and fails if any of them fails. The sponsor can be read or replaced only in sponsored authorizations, fee and nonce setters change only the origin, and clearing for signing clears the origin and replaces the sponsor by the empty sentinel.",
  ["inputs", "histories"], "every authorization of both kinds with arbitrary spending conditions, and every hash",
  "Tests exercise valid signatures only; a skipped or misflagged verification passes them all.",
  ["transaction/auth.rs"], [("Auth", "transaction/auth.rs")],
  "Summaries equal references; spending conditions are arbitrary (virtual calls uninterpreted, effects tracked).")
p("C12", "Signing a transaction starts from its cleared form and changes only auth",
  "A signer starts from the SHA-512/256 of the transaction serialized with its authorization cleared, or for a sponsor from the hash after verifying the origin of the sponsored transaction. Each signing step is refused, without changing anything, when the origin would sign after the sponsor or the condition already has its required signatures; otherwise it signs the current hash with the right flag and the condition's own fee and nonce, stores the signature in that condition, and advances the hash, leaving every other part of the transaction as it was.",
  ["inputs", "histories"], "every transaction, secret key and signer state",
  "Tests sign a few fixed transactions end to end.",
  ["transaction/signer.rs", "transaction/base.rs"], [("TransactionSigner", "transaction/signer.rs"), ("Transaction::sign", "transaction/base.rs")],
  "Summaries of all signer operations equal the references over arbitrary signer states, with uninterpreted spending conditions whose mutations are tracked.",
  state=["transaction under signing, running hash, origin-signed flag"])
p("C13", "Hex text is two lower-case digits per byte and decodes strictly",
  "Hex encoding yields exactly two lower-case digits per byte, high nibble first. Decoding returns the bytes written, accepts either digit case, and fails for an odd number of digits or any non-hex character; it never panics.",
  ["inputs"], "every byte string and every text",
  "Tests sample a few literals; every byte value, length and malformed text matters.",
  ["crypto/hex.rs"], [("hex codec", "crypto/hex.rs")],
  "Summaries of both directions (digit loops in closed form) equal the references' summaries.")
p("C14", "Base58 and Base58Check follow the Bitcoin definition",
  "Base58 encoding is the big-endian base-58 representation over the Bitcoin alphabet with one '1' per leading zero byte, and decoding is its inverse, failing for characters outside the alphabet. Base58Check puts the version first and the first four bytes of the double SHA-256 of version and payload last; decoding returns version and payload only when that checksum matches, and fails, never panics, on anything else.",
  ["inputs"], "every byte string, version and text",
  "Tests encode a few addresses; leading zeros, carries, short inputs and corrupted checksums are unbounded.",
  ["crypto/b58.rs"], [("base58 codec", "crypto/b58.rs")],
  "Summaries equal references: the digit loops as recurrences, the checksummed forms with the plain codec uninterpreted; first iterations are also compared as separate partitions.")
p("C15", "C32 and c32check addresses follow SIP-005",
  "C32 encoding is the big-endian base-32 form over the Crockford alphabet with leading zero bytes kept as '0'; decoding inverts it and reads lower case and the letters O, L and I as 0, 1 and 1. A c32check string carries the version character (only versions below 32) and a four-byte double SHA-256 checksum over version and payload; an address is 'S' followed by a c32check string and is created only for versions 20, 21, 22 and 26. Parsing returns the version and the 20-byte hash exactly when prefix, characters, length and checksum are right, with an error and never a panic otherwise.",
  ["inputs"], "every byte string, version and text",
  "Tests encode a few addresses; bit carries, leading zeros, unusual letters and corrupted text are unbounded.",
  ["crypto/c32.rs"], [("c32 codec", "crypto/c32.rs"), ("c32check addresses", "crypto/c32.rs")],
  "Summaries equal references: the bit loops as recurrences, the checksummed forms with the plain codec uninterpreted; first iterations are also compared as separate partitions.")
p("C16", "Length, emptiness and hex forms agree with the encoded bytes",
  "For every encodable item (Clarity values, names, argument lists, payloads, authorizations, spending conditions, post-conditions and transactions) the reported length is the number of encoded bytes, it is reported empty exactly when there are none, and its hex forms are the lower-case hex of the encoded bytes, without and with a leading 0x. Each fails exactly when encoding fails, with the same error.",
  ["inputs"], "every item of every encodable type",
  "Tests print hex for a few values; that all forms follow encoding, including its failures, for every type is never tested.",
  ["clarity/mod.rs", "clarity/impl.rs", "transaction"], [("Codec provided methods", "clarity/mod.rs")],
  "Summaries of the provided forms are compared with the encoder's own summary followed by length, emptiness or hex, for each encodable type.")
p("C17", "Clarity values hold, return, copy and convert exactly what they were given",
  "A Clarity value returns, by reference, by value and through every conversion and iterator, exactly the data it was built from, in order; booleans and none hold their one value. A clone holds equal data, the reported type prefix is the SIP-005 one (255 for names and argument lists, which have none), and a cast succeeds, with the held value, exactly when the held value has the requested type.",
  ["inputs"], "every Clarity type and every value it can hold",
  "Tests round-trip a few literals; whether every conversion, copy and cast of every type keeps the data is not sampled.",
  ["clarity/macro.rs", "clarity/impl.rs", "clarity/mod.rs"], [("accessors and casts", "clarity/macro.rs"), ("conversions", "clarity/impl.rs")],
  "Summaries of constructors, accessors, conversions, clones, iterators and casts equal references stating the identity on the held data; nested values are arbitrary trait objects, their clone uninterpreted.")
p("C18", "Clarity values print as Clarity literals and compare by that text",
  "A Clarity value prints as: the decimal integer (prefixed by u when unsigned), 0x and lower-case hex for buffers, true, false, none, the bare address, address.name for contracts, quoted strings (u-prefixed when UTF-8), (ok x), (err x), (some x), (list x y ...), (tuple (key x) ...) and (fn-args x y ...), with single spaces between elements in order. Two values of one type compare equal exactly when they print the same text.",
  ["inputs"], "every value of every Clarity type, lists and tuples of any length",
  "Tests print a few literals; separators, empty and longer sequences and every type's form are not sampled.",
  ["clarity/impl.rs", "clarity/macro.rs"], [("Display implementations", "clarity/impl.rs"), ("PartialEq", "clarity/macro.rs")],
  "The text each printer appends (a symbolic string; loops and joins in closed form) equals the reference text for all values; printing of nested values is uninterpreted and shared.")
p("C19", "Tuples behave as ordered maps from keys to values",
  "Looking up a key in a tuple, for reading or changing, returns the value stored with its first occurrence and none when the key is absent. Inserting appends one entry and leaves the others as they were, removing takes out the first entry with that key and returns its value and leaves the rest in order, and keys and values are listed in entry order.",
  ["inputs", "histories"], "every tuple of any size, every key and value",
  "Tests look up keys of small tuples; similar keys, removal positions and absent keys are unbounded.",
  ["clarity/impl.rs"], [("Tuple operations", "clarity/impl.rs")],
  "Summaries of each operation over tuples of arbitrary length (searches and filters in closed form) equal the references' summaries.",
  state=["the ordered key/value entries of a tuple"])
p("C20", "The construction macros build the values they name",
  "Each form of the clarity macro builds the same value as the constructor of the type it names, from its arguments in the order written and each evaluated once, and the empty forms build empty values. Each form of the post-condition macro builds the named condition from its arguments in order, or a set with exactly the listed conditions in order.",
  ["inputs"], "every macro form with arbitrary arguments; sequences of up to ten, and condition sets of up to five, elements",
  "Tests use the macros with literals of a few forms, so a dropped, reordered or mis-typed form can go unnoticed.",
  ["clarity/macro.rs", "transaction/condition.rs"], [("clarity macro", "clarity/macro.rs"), ("post_condition macro", "transaction/condition.rs")],
  "Each macro form is expanded with arbitrary arguments in an analysis entry point whose summary must equal that of explicit construction.")
p("C21", "Each network carries its own version, chain id and node address",
  "The main network has transaction version 0x00, chain id 0x00000001 and the Hiro mainnet API address; the test network has version 0x80, chain id 0x80000000 and the Hiro testnet API address; the local mock network has the testnet version and chain id and the local address on port 3999. Created, defaulted or cloned behind a trait object, a network reports the same.",
  ["inputs"], "every network and way of obtaining one",
  "Tests use one network per case and never compare them; mixing networks up makes signatures valid on the wrong chain.",
  ["transaction/network.rs"], [("network definitions", "transaction/network.rs")],
  "Summaries of construction followed by the accessors are constants compared with the specified ones.")
p("C22", "Transaction builders put every setting where it belongs",
  "Building a token transfer or contract call yields a transaction with exactly the given payload, network version and chain id, anchor mode, post-condition mode and post-conditions, authorised by a standard single-signature pay-to-public-key-hash condition of the sender's key with the given fee and nonce and no signature yet. Settings left out are zero fee and nonce, any anchor mode, allow mode, no post-conditions and an empty memo; a contract call fails exactly when its contract address does not parse. Sponsored building is not supported and excluded.",
  ["inputs"], "every combination of settings, keys and networks, including user-defined networks",
  "Tests build a few transactions with mostly default settings.",
  ["transaction/builder.rs"], [("token transfer builder", "transaction/builder.rs STXTokenTransfer"), ("contract call builder", "transaction/builder.rs STXContractCall")],
  "Summaries of building and converting with arbitrary settings (the generated builder code included) equal explicit construction of the transaction; key derivation and address parsing are uninterpreted and shared.")
p("C23", "Wallets derive the standard Stacks accounts and keep set accounts",
  "A wallet opened from a mnemonic phrase holds the key at m/44'/5757'/0'/0 of the phrase's seed with an empty password, and account i is the child i of that key, carrying index i, the same every time it is asked for and whatever accounts were asked for before. After an account was set for an index, exactly that index yields the account set last. An account's private key, public key and address for a version are those of its extended key, the address being the hash of the compressed public key under the version asked for.",
  ["inputs", "histories"], "every phrase, every pair of indices (32 bit), every account and version",
  "Tests derive account 0 of one phrase; other indices, repeated and mixed requests and replaced accounts are not sampled.",
  ["wallet.rs"], [("StacksWallet, StacksAccount", "wallet.rs")],
  "Summaries of opening a wallet followed by two requests, one setting and a request, or two settings and a request, for arbitrary indices (maps as finitely many different keys over an empty rest), equal the references; BIP-32 and BIP-39 functions are uninterpreted and shared.",
  state=["accounts remembered by the wallet"])
p("C24", "Derived conversions take each field from the entry its key names",
  "Converting a tuple into a struct with the derive fills each field with the value stored under that field's key: integers, booleans, buffers, any value's printed text, the printed elements of a list in order, the payload of an ok response for fields so marked, nested structs, and for optional fields the payload of a present value or none for an absent one. It fails when a key of a non-optional field is absent or its value has another type, and does not depend on the order of the fields or of differently named entries.",
  ["inputs"], "every tuple of any size, for structs of every supported field type, with keys of many spellings, and structs mixing them",
  "Tests convert a few well-formed tuples; absent keys, wrong types, similar keys, other entry orders and values are not sampled.",
  ["stacks_derive/src/from_tuple.rs", "derive.rs"], [("FromTuple derive", "stacks_derive/src/from_tuple.rs")],
  "The derive is expanded for structs of every supported shape and the generated conversion's summary over arbitrary tuples equals the reference's; printing is uninterpreted and shared.")
p("C25", "Each node call sends exactly one right request and reports its answer",
  "Asking for node or account info, a fee estimate, a broadcast or a read-only call sends exactly one request under the client's base address: GET /v2/info, GET /v2/accounts/{address}, POST /v2/fees/transaction with the payload in hex and the transaction's length, POST /v2/transactions with the encoded transaction as octet-stream, or POST /v2/contracts/call-read/{address}/{contract}/{function} with the sender and the arguments in hex in order; nothing is sent when encoding fails. A success answer is returned as that call's response; an HTTP error status becomes the response's error form for fee estimates and broadcasts; every other failure is returned as an error.",
  ["inputs", "fault_sequences"], "every address, transaction, argument list and every answer or failure of the node",
  "No test talks to a node, so none checks what is sent or how answers and failures are reported.",
  ["rpc.rs"], [("StacksRPC", "rpc.rs")],
  "Requests are recorded in order along every path (an effect trace) and answers are uninterpreted functions of everything sent; result and trace of each call equal the reference's for all inputs and all answers, failures included.",
  observe=["requests handed to the HTTP library", "returned values"])
p("C26", "Outside the node client every operation is a pure function",
  "Encoding, decoding, hashing, address handling, key derivation, building, signing and verifying give the same result for the same arguments every time, and neither read nor change anything else: no files, environment, network, clock, randomness, standard streams, threads, memory addresses or mutable global state, nor the iteration order of hash tables. The library contains no unsafe code of its own, so no input can lead it into undefined behaviour.",
  ["inputs", "histories", "schedules"], "every function of the library, under every history of earlier calls and any interleaving of threads",
  "A hidden input or piece of shared state shows only under a particular history, environment or interleaving, which tests do not vary.",
  ["lib.rs", "clarity/impl.rs", "crypto/hash.rs", "transaction/signer.rs", "transaction/base.rs", "wallet.rs"],
  [("all functions", "every module of stacks/src"), ("sole exception: HTTP requests", "rpc.rs")],
  ("static analysis: effect analysis over the call graph", "Every function of the crate (generic ones included) is inspected in its type-checked intermediate form: functions called or passed as values, statics referred to and their mutability, closures that initialise statics and what they capture, pointer-to-number casts, unsafe blocks; any construct with an outside effect or hidden input is reported with its call site. Called libraries are covered by a list of their effectful functions."),
  state=["none: absence of shared state is the claim"])
p("C27", "Node answers are read member by member under their documented names",
  "Reading a node's JSON answer takes every field of the response from the member of the same name, whatever the order of the members and whatever other members there are, and fails when a member is missing or of the wrong kind; fee estimates keep the order they have in the answer. A read-only answer with a result is the success form and one with a cause the failure form, a broadcast answer that is a bare text is its success form and an object the failure form, and a broadcast answer prints as the transaction id or as its message and reason.",
  ["inputs"], "every value of every member of the node, account, fee, broadcast and read-only answers",
  "No test reads an answer of a node: a renamed, swapped, defaulted or mistyped member goes unnoticed.",
  ["rpc.rs"], [("response types", "rpc.rs")],
  "The derived readers (and the parts of serde they use) are analysed on objects with the documented member names and arbitrary values, in documented and in reverse order with foreign members, and with a member missing or of another kind; the result equals the reference for all values.")
p("C28", "Misuse of the interface is a compile error",
  "No program compiles that builds a transfer or contract call without one of its mandatory settings (recipient, amount; address, contract, function, arguments; sender and network), gives a setting twice, uses a builder or an unsigned transaction again after it was consumed, or passes a negative amount, fee or nonce, a key of the other kind, a digest of another kind, or something other than a Clarity value where one is needed. Deriving a tuple conversion for an enum, for a struct without named fields, for a field without a key or for a field of an unsupported type does not compile either. Clarity values, post-conditions, single- and multi-signature conditions, addresses, digests, networks and the node client can all be copied, sent to and shared with other threads.",
  ["programs"], "every program that uses the library in one of these ways",
  "Tests are programs that compile: none can show that a wrong program does not.",
  ["transaction/builder.rs", "clarity/macro.rs", "transaction/condition.rs", "stacks_derive/src/from_tuple.rs"],
  [("typed builders", "transaction/builder.rs"), ("construction macros", "clarity/macro.rs"), ("FromTuple derive", "stacks_derive/src/from_tuple.rs")],
  ("static analysis: compile-fail witnesses (type checker)", "For every forbidden use a program with just that use is handed to the type checker against the current tree and must be refused, while its twin without the use must be accepted; the thread and copy guarantees are trait bounds that must be accepted."))
na("C29", "Decoding deeply nested values needs bounded stack and memory",
  "Decoding any byte string uses stack and memory bounded by a fixed multiple of the input's length, so no input from the network can exhaust either.",
  ["inputs"], "every byte string, in particular one type prefix repeated many thousand times",
  "A test can only try some depths and lengths on one machine's limits.",
  ["clarity/impl.rs"], [("recursive decoding", "clarity/impl.rs")],
  "Decoding recurses once per nesting level, so whether the stack lasts depends on frame sizes chosen by the code generator, on the thread's stack limit and on the depth of the input at run time; none of them is visible in the source, and no static bound in reach says more than 'unbounded'.")
na("C30", "The cryptographic primitives of other libraries are right",
  "The elliptic-curve operations, digests, key derivation and mnemonic handling taken from other libraries compute the standard functions, and secret keys cannot be recovered from signatures or from timing.",
  ["inputs"], "every key, message and seed",
  "Tests compare a few published vectors.",
  ["crypto/hash.rs", "wallet.rs"], [("external crates", "crypto/hash.rs")],
  "The primitives live in other libraries (partly C and assembly) and are uninterpreted functions here; their correctness and strength is not a property of this repository's source that a dataflow or type argument could decide.")
