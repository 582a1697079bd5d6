M = "merkle/src/"
S = "proof-systems-shim/src/"
prop("C13", "A merkle root covers exactly the leaves, whatever the history",
     "The root of a merkle tree is a function of its sequence of leaves, its height rule and nothing else: any interleaving of single and batched appends with root queries gives the root that hashing the same leaves bottom up gives, every node being hashed with its own height, and any change, swap or extension of the leaves changes it. "
     "A tree of fixed height treats absent leaves as empty, and yields no root when it holds more leaves than fit. "
     "The height and depth that a node reports are its true distances in the tree.",
     ["inputs", "histories"], "all leaf sequences, heights, mergers, and append/query histories",
     "the tests compute a handful of roots and never query a root between appends",
     [M+"tree_impl.rs", M+"tree.rs", M+"metadata.rs", M+"merger_poseidon.rs", M+"hasher_poseidon.rs", M+"prefixes.rs"],
     [("tree and hash cache", M+"tree_impl.rs"), ("node positions", M+"metadata.rs")],
     ["root hash", "node metadata"], technique="history monitor against a bottom-up reference tree",
     note="the real merkle crate; hash function replaced by an injective recording one, and by the Poseidon interface over a stand-in sponge")
prop("C14", "Merkle proofs and paths verify exactly when they are genuine",
     "A proof that a tree gives for a leaf verifies for that leaf and that root, and a proof or path verifies only if hashing the item up the listed siblings on the stated sides gives the root: any altered item, sibling, side, position, order or length is rejected. "
     "Malformed proofs and paths (missing, extra or foreign nodes, empty or too long) are rejected without a panic. "
     "The JSON form of a path keeps sides and hashes, and malformed forms are errors.",
     ["inputs"], "all trees, leaves, proofs and paths, genuine or tampered",
     "the tests verify a few genuine proofs and alter none at inner levels",
     [M+"proof.rs", M+"path.rs", M+"tree_impl.rs"], [("proof verification", M+"proof.rs"), ("paths", M+"path.rs")],
     ["verdict", "root hash", "JSON text"], technique="reference-model monitor with a tampering workload",
     note="fixed and variable height trees; single-leaf trees of variable height are excluded (the leaf is the root)")
prop("C15", "Field elements keep their value as text and as packed hash input",
     "A field element is written in JSON as its decimal value and read back unchanged; text that is not the decimal of a number below the modulus is an error. "
     "Packing a hash input keeps every field element and every bit chunk: chunks are packed greedily, in order, most significant first into elements of at most 254 bits, so different inputs of one shape give different packed elements. "
     "Converting up to 254 bits to a field element gives the number those bits spell, whatever the storage holds beyond them.",
     ["inputs"], "all field elements, decimal texts, and sequences of fields and bit chunks",
     "the tests convert a few fixed values",
     [S+"fp.rs", S+"roinput.rs", S+"lib.rs"], [("decimal form", S+"fp.rs"), ("packing", S+"roinput.rs")],
     ["decimal text", "packed field elements"], technique="reference-model monitor with unbounded integers",
     note="field arithmetic is a stand-in that is itself compared with unbounded integers")
T = "protocol/serialization-types/src/"
prop("C16", "Blocks are read and written exactly as the protocol layout says",
     "Every byte string that the shipped protocol layout says is a block (or a part of one: protocol state, pre-diff, command, status, coinbase, snark work, proof) is read by the Rust types as exactly the values the layout names, and written back as the same bytes; every value of the types is written as bytes the layout reads as the same value. "
     "Converting a block to the native types and back changes nothing. "
     "Damaged bytes are an error or the value they spell, never a panic.",
     ["inputs"], "all values of the layout, all values of the types, all byte strings",
     "the tests read a handful of blocks and check some fields",
     [T+"external_transition.rs", T+"staged_ledger_diff.rs", T+"snark_work.rs", T+"consensus_state.rs", T+"signatures.rs", "protocol/versioned/src/lib.rs", "base/src/external_transition.rs"],
     [("wire types", T+"lib.rs"), ("conversions to native types", "protocol/serialization-types-macros/src/auto_from.rs")],
     ["typed values", "bytes"], technique="differential monitor against an independent interpreter of the protocol layout",
     note="commands the types do not cover (snapps, token creation and minting) must be refused")
prop("C17", "Blocks keep their content in the JSON form of the network",
     "Every block is written in the JSON form that the network's tools use: list-tagged variants, decimal strings for integers, amounts in whole coins, hashes, keys, memos and signatures as base58check text of their own kind, proofs as base64. "
     "Reading that text gives back the same block, and the native type has the same form. "
     "Malformed JSON (damaged or wrong kind of text, number out of range, missing field, unknown variant) is an error, never a panic or another block.",
     ["inputs"], "all blocks and all damage to one place of their JSON",
     "the tests read a few shipped blocks and inspect some values",
     [T+"common.rs", T+"macros.rs", T+"staged_ledger_diff.rs", T+"snark_work.rs", T+"signatures.rs", T+"field_and_curve_elements.rs", T+"version_bytes.rs", "base/src/external_transition.rs"],
     [("JSON types", T+"lib.rs"), ("list-tagged enums", T+"macros.rs"), ("leaf forms", T+"common.rs")],
     ["JSON text", "value read back"], technique="reference-model monitor with a schema pinned by shipped blocks, and a damage workload",
     note="protocol versions are not carried in JSON; byte strings that JSON cannot carry are a recorded finding")
B = "base/src/"
prop("C18", "Amounts and block times keep their exact value as text",
     "An amount is written as whole coins with exactly nine decimals (in JSON with trailing zeros dropped) and reads back unchanged; text of digits with up to nine decimals gives exactly the amount it spells, and any other text, or one beyond the largest amount, is an error, never a panic or another amount. "
     "Integers in JSON are their decimal digits, and out of range or malformed ones are errors. "
     "A block time names the instant, date and time of day of its milliseconds since 1970 (up to the year 9999).",
     ["inputs"], "all 64-bit amounts, all texts, all block times up to the year 9999",
     "the tests convert some twenty values",
     [B+"numbers.rs", B+"constants.rs", T+"common.rs"], [("amounts and times", B+"numbers.rs"), ("decimals in JSON", T+"common.rs")],
     ["text", "value read", "date"], technique="reference-model monitor that works on the digits",
     note="texts with a leading plus, an empty part or superfluous zero decimals may be read or refused")
prop("C19", "Hashes, keys, memos and field elements keep their value as text",
     "Each kind of hash, public key, memo, VRF output, character and field element has one text (base58check with the version byte of its kind, base64, or hex) which states exactly its content and reads back as it. "
     "Text that is damaged, of another kind or of the wrong length is an error, never a panic or another value. "
     "A memo made from text holds that text if it has at most 32 bytes and is refused otherwise; a number in any radix becomes the field element of that value only if it is below the modulus.",
     ["inputs"], "all contents and all texts of sixteen kinds",
     "the tests convert a few known hashes",
     ["crypto/src/hash/types.rs", T+"common.rs", T+"signatures.rs", T+"macros.rs", T+"version_bytes.rs", T+"consensus_state.rs", B+"user_commands/memo.rs", B+"numbers.rs"],
     [("hash types", "crypto/src/hash/types.rs"), ("base58 forms", T+"common.rs"), ("memos", B+"user_commands/memo.rs")],
     ["text", "value read"], technique="reference-model monitor with independent encoders and a damage workload",
     note="base58check decoding by a stand-in of the bs58 crate; inner version bytes other than 1 may be refused or ignored")
C = "consensus/src/"
prop("C20", "Chain selection follows the fork rules whatever the candidates",
     "Given the own chain and candidates, selection ends with the chain that the rules prefer: in a short range fork the longer one, ties broken by the digest of the VRF output and then the state hash; in a long range fork the one with the higher relative minimum window density, candidates with malformed windows ignored; and it never alters a chain. "
     "Forks are short range exactly when their lock checkpoints agree as the epochs require; among short range candidates the winner does not depend on their order. "
     "A chain grows only by a block one higher than its last, reports its last block's facts, and no number in a candidate causes a panic.",
     ["inputs", "histories"], "all chains, candidate lists and orders of arrival",
     "the tests decide some forks between fixed blocks",
     [C+"common.rs", B+"consensus_state.rs", B+"protocol_state.rs"], [("fork choice", C+"common.rs"), ("vrf digest", B+"consensus_state.rs")],
     ["selected chain", "relative density", "verdict on fork range"], technique="reference-model monitor over generated forks, with an order-independence oracle",
     note="the projection of windows in long forks is a recorded finding")
prop("C21", "A wallet opens with its password only and holds the key it was made with",
     "A wallet file in the network's format (Argon2i, XSalsa20-Poly1305, base58check) opens with its password to exactly the key that was sealed in it, gives that key's address, and is rewritten as the same wallet. "
     "With any other password, or when any bit of ciphertext, nonce, salt or costs is altered, or the file is malformed in any way, opening is an error, never a panic or another key. "
     "A box whose content is no key gives no key pair.",
     ["inputs"], "all keys, passwords, costs and damage to a wallet",
     "the tests open the one shipped wallet",
     ["secrets/src/secret_box/mod.rs", "secrets/src/secret_box/types.rs", "secrets/src/secret_box/types_impls.rs", "secrets/src/secret_box/utils.rs"], [("secret box", "secrets/src/secret_box/mod.rs")],
     ["opening result", "rewritten wallet"], technique="reference-model monitor that seals wallets itself, with a damage workload",
     note="the password hash and the secret box are stand-ins pinned by the shipped wallet")
prop("C22", "A signed command is bound to its content, signer and network",
     "Signing a payment or delegation yields a signature that the protocol's rule accepts for exactly that payload, key and network, and the command carries that payload and key. "
     "Verification accepts exactly the commands whose signature is valid: changing any field, swapping two fields, the kind of command, the signature, the signer (also to one that is no curve point) or the network makes it false, never a panic, also after a trip over the wire. "
     "A block is valid exactly when each command in it is, and the builder sets each field to what was asked last, leaving the others at their defaults.",
     ["inputs"], "all payloads, keys, networks and single alterations",
     "the tests sign and verify six fixed payments and alter one field",
     [B+"user_commands/signed_command/mod.rs", B+"user_commands/signed_command/builder.rs", B+"user_commands/payment.rs", B+"user_commands/memo.rs", B+"user_commands/mod.rs", B+"staged_ledger_diff.rs", B+"external_transition.rs"],
     [("what is signed", B+"user_commands/signed_command/mod.rs"), ("builder", B+"user_commands/signed_command/builder.rs")],
     ["verdict of verification", "signature", "covered content"], technique="reference-model monitor with its own Schnorr signer and verifier",
     note="on the real curve but with a stand-in sponge; token lock and other kinds of command are not covered by the types")
prop("C23", "What is hashed of a state or an account is exactly its content",
     "The hash inputs of protocol states, of their parts and of accounts contain every field that the protocol hashes, in its order and with its width, and nothing else: two values that differ in any hashed field have different inputs. "
     "Special values are as the protocol defines them: permissions and timing as their bits, absent delegates, verification keys and snapp states as their stand-in values, token symbols as their bytes. "
     "The state hash and account hash are the sponge with the right domain over those inputs.",
     ["inputs"], "all states, accounts, permissions and timings",
     "the tests hash a few fixed states and accounts",
     [B+"protocol_state.rs", B+"blockchain_state.rs", B+"blockchain_state_registers.rs", B+"consensus_state.rs", B+"epoch_data.rs", B+"global_slot.rs", B+"numbers.rs", B+"common.rs", B+"account/mod.rs", B+"account/permissions.rs", B+"account/timing.rs", "crypto/src/hash/types.rs", "proof-systems-shim/src/roinput.rs"],
     [("state inputs", B+"protocol_state.rs"), ("account inputs", B+"account/mod.rs")],
     ["hash input fields and bits", "digest"], technique="reference-model monitor with its own layout of the hash inputs",
     note="sponge by a stand-in; times from 2^32 are out of scope, legacy accounts are not claimed")
prop("C24", "States and accounts from a GraphQL answer are the ones it tells",
     "A protocol state or an account read from an answer of the network's GraphQL interface has every value that the answer tells, whatever else the answer holds, in any order of its members. "
     "What the answer may leave open (delegate, timing, token flags) reads as its absence, what the interface never tells as the fixed default. "
     "An answer in which a needed value is missing, of another type, out of range or with a wrong checksum is refused: never a panic, never a default in its place.",
     ["inputs"], "all states and accounts and every way to spoil one part of an answer",
     "the tests read a few recorded answers",
     [B+"protocol_state.rs", B+"blockchain_state.rs", B+"consensus_state.rs", B+"epoch_data.rs", B+"from_graphql_json.rs", B+"account/mod.rs", B+"account/timing.rs", B+"account/permissions.rs", "crypto/src/hash/types.rs"],
     [("answers of states", B+"consensus_state.rs"), ("answers of accounts", B+"account/mod.rs")],
     ["value read", "refusal"], technique="reference-model monitor that writes the answers itself, with a spoiling workload",
     note="states are told within the first epoch, where slot and global slot agree; zkapp parts are not read by the code")
prop("C25", "The frontier holds the chain and ledger that the rules select",
     "After any history of blocks the frontier's best chain is the first valid block or the one that the fork rules prefer among the valid ones since; a block with an invalid command is an error and changes nothing, and so does a fork that cannot be weighed. "
     "Where blocks carry proofs, the frontier's ledger is always the one that came with its best block. "
     "An answer's proofs are read as the addressed accounts' leaf, position, siblings and root, and a malformed proof or state refuses the whole answer.",
     ["inputs", "histories"], "all sequences of blocks and all answers",
     "the tests read one recorded answer",
     ["network/src/processor/naive_transition_frontier.rs", "merkle/src/path.rs", "merkle/src/proof.rs", C+"common.rs"],
     [("frontier", "network/src/processor/naive_transition_frontier.rs"), ("merkle paths", "merkle/src/path.rs")],
     ["best chain", "ledger of proofs", "result of adding"], technique="reference-model monitor over histories of blocks",
     note="the choice between long forks is judged with the finding recorded for chain selection")
prop("C26", "Every message between network and frontier arrives once and in order",
     "Under every interleaving of the event loops, the network, the frontier and readers, each block that converts reaches the frontier exactly once and in the order its source sent it, one at a time, and each request reaches the network exactly once, in order. "
     "A failing block or request never stops the ones after it, neither loop waits for the other, and the loops end when both channels are closed, not before. "
     "A reader sees the frontier only between blocks and never while one is added.",
     ["schedules", "histories"], "all interleavings of senders, loops, readers and failures",
     "the repository has no test of the processor on this path",
     ["network/src/processor/mod.rs", "network/src/processor/processor_impl.rs"], [("event loops", "network/src/processor/processor_impl.rs")],
     ["event log of sends, begins, ends, queries and reads", "termination"], technique="offline checker over event logs of executions under a random scheduler and real threads",
     note="a frontier and a network that both wait inside their calls can wait for each other: recorded finding")
prop("C27", "A genesis ledger gives every stored account once, in order, unchanged",
     "Reading a genesis ledger gives, for every account record of the store, the account as stored, in the order of the keys and nothing else, whatever other records the store holds; written again it is the same bytes. "
     "A record that is no account and a failure of the store show as errors where they occur, they neither end the ledger early nor pass as an account. "
     "The Merkle tree of the ledger has these accounts as its leaves, in that order, in a tree of twenty levels above them.",
     ["inputs", "fault_sequences"], "all stores of accounts, other records, damage and failing reads",
     "the tests read the shipped stores and compare a count or a root",
     ["ledger/src/genesis_ledger.rs", "ledger/src/rocksdb_genesis_ledger.rs", "protocol/serialization-types/src/account.rs", B+"account/mod.rs", B+"account/timing.rs", B+"account/permissions.rs"],
     [("ledger iteration", "ledger/src/rocksdb_genesis_ledger.rs"), ("trees", "ledger/src/genesis_ledger.rs")],
     ["accounts read", "errors", "root and leaves of the tree"], technique="reference-model monitor with its own writer of stores, planted damage and store failures",
     note="the database is a stand-in in memory that reads the shipped logs; accounts without zkapp parts; an unreadable account missing from the tree is a recorded finding")
prop("C28", "Built-in genesis states are the networks' and proof parts hold what is given",
     "The genesis block built in for mainnet, and for devnet, which still shares it, is the shipped genesis block byte for byte, and berkeley's genesis state is the one that the network answers; each is a first state (height 1, slot 0, full windows, one ledger and one currency throughout, previous hash equal to its genesis hash) and starts a chain, whichever thread uses it first. "
     "Challenges, field elements and curve points are built from exactly the given numbers or hex digits, each in its place, also as the curve library's own elements and points; a hex text of any other length or with another character is an error, never a panic.",
     ["inputs", "schedules"], "all facts of the three states, all numbers and texts that parts of proofs are built from",
     "the tests compare one genesis block and a few texts, and build without the curve library's points",
     [C+"genesis/config.rs", C+"genesis/genesis_impl.rs", C+"common.rs", B+"protocol_state_proof/bulletproof_challenges.rs", B+"protocol_state_proof/field_and_curve_elements.rs", B+"numbers.rs", B+"protocol_version.rs", "crypto/src/hex/mod.rs"],
     [("genesis states", C+"genesis/genesis_impl.rs"), ("points and elements", B+"protocol_state_proof/field_and_curve_elements.rs")],
     ["bytes of the block", "facts of the states", "elements, challenges and points built"], technique="reference-model monitor against the shipped block and a recorded answer, with spoiled texts",
     note="curve points by a stand-in of the curve library; coordinates below both moduli")
K="apps/tools/blocks-crawler/src/"
prop("C29", "The block crawler checks every listed block once and keeps it whole",
     "A run asks for the list of as many latest blocks as its option says, and then for each listed block that no earlier run has kept as good, once, and as many at a time as the concurrency option allows (8 without it) but no more. "
     "A block that can be fetched and that the types accept is kept under output/succeeded, one that they refuse under output/failed, under its height and hash and as it was served without `scheduled_time`; bad blocks are checked again when listed again, a block that cannot be fetched or is no JSON ends nothing and leaves no file, and without a list the run fails and changes nothing. "
     "Whenever a run is killed or runs out of space, the folders hold only whole files, earlier good blocks stay, and later runs complete the work.",
     ["inputs", "histories", "crash_points", "fault_sequences"], "all histories of runs with changing lists and answers, killed or out of space anywhere",
     "the crawler has no tests",
     [K+"main.rs", K+"blocks.rs"], [("checking a block", K+"blocks.rs"), ("concurrency", K+"main.rs")],
     ["requests at the server, and how many at once", "files in both folders", "exit status"], technique="model of the folders and server log over histories of real processes, with kills and file-size limits",
     note="HTTP client is a stand-in that sends to the monitor's server on the loopback address")
N="network/src/p2p/"
prop("C30", "Transports connect exactly the peers of one network, as whom they are",
     "Transports, and peers that follow the protocol, connect exactly if the same rendezvous string (its BLAKE2b-256 hash is the key that encrypts everything on the wire) and the same multiplexer name were given to both, last and by whichever of the builder's ways; the main network's are built in and the empty string and Mina's name are the default. "
     "Each side then sees the identity of the other's key, which is the one given to the builder or else a fresh one and is also what building reports, whichever side dialed, by number or name, over TCP or websocket. "
     "A connection that is not complete within the given timeout, 60 seconds if none was given, fails then and not before, and a missing name resolver is an error of building.",
     ["configurations", "inputs", "fault_sequences"], "all strings, names, orders of builder calls, addresses, delays and silent or foreign peers",
     "the tests need the live network and try four configurations",
     [N+"builder.rs", N+"config.rs"], [("layers", N+"builder.rs"), ("private key", N+"config.rs")],
     ["bytes on the wire", "identities reported", "outcome and its time"], technique="monitor's own peers on the wire, in virtual time, for generated builder programs",
     note="libp2p is a stand-in: pipes in memory, simple cryptography, same order and conditions of layers")
NJ="network/src/processor/js/"
prop("C31", "GraphQL backends hand on what the network answered, once, despite faults",
     "The v1 backend delivers, for a query, exactly the block stored under that height and state hash and, for a poll, those of the ten blocks received last that can be fetched, in that order; the Berkeley backend delivers, from every endpoint on its list, the best chain with the genesis ledger hash and the accounts it tracks, in the form that the transition frontier reads. "
     "Each is delivered unchanged and exactly once to the responder set last; a request that goes wrong is made up to three times, so one or two failures in a row go unnoticed, and a result that says success means that everything asked for was delivered. "
     "An operation whose answer cannot be had reports an error and delivers nothing made up (an unobtainable block of a poll is left out), nothing else is asked of the network, and without a responder nothing at all; in a processor the same blocks arrive at the frontier.",
     ["fault_sequences", "histories", "schedules"], "all networks, sequences of operations, faults per request and schedules of the receiver",
     "the tests need a browser and the live network; they make one good request each",
     [NJ+"graphql_api_v1.rs", NJ+"graphql_api_berkeley.rs", "network/js/graphql_v1_utils.js", "network/js/graphql_berkeley_utils.js"],
     [("v1 poll and query", NJ+"graphql_api_v1.rs"), ("retry and the query", "network/js/graphql_berkeley_utils.js")],
     ["every request that reaches the network", "every value a receiver gets", "results of operations"], technique="online monitor between the real Rust and JavaScript and a made-up network with faults; comparison with what the network served",
     note="the JavaScript runs in Node; wasm-bindgen and js-sys are stand-ins that pass calls to it")
AB="apps/wasm/mina-berkeley/src/"
prop("C32", "Browser wallets ask of their node exactly what the page wants, once",
     "Sending a payment, locking or unlocking an account and asking for one in either browser wallet makes exactly one GraphQL request, to the given endpoint (the MVP wallet: to its local one), whose operation has exactly the page's values as its arguments, whatever characters addresses, password and memo contain: fee, amount and expiry given as number, bigint or text with their exact values, and nonce, memo and expiry where the page gives them. "
     "The page gets the node's JSON answer unchanged, errors included; a payment whose numbers are not whole or do not fit is refused without a request, and an answer that cannot be had or is no JSON is an error to the page, never a panic and never a second request. "
     "The Berkeley wallet's exports steer and show its one processor as its own interface does (endpoints, accounts, polls, best state hash, number of account proofs), and its log holds every record of level debug and above once, whole and in order since it was cleared.",
     ["inputs", "fault_sequences", "schedules", "histories"], "all texts and JavaScript values a page can give, all answers and faults of the node, and all interleavings of pages",
     "no test exists: the functions need a browser and a node",
     [AB+"js_exports.rs", AB+"payment.rs", "apps/wasm/mvp/src/payment.rs", AB+"logger.rs"],
     [("operations", AB+"js_exports.rs"), ("numbers of a payment", AB+"payment.rs"), ("the log", AB+"logger.rs")],
     ["every request that reaches the node, parsed as GraphQL", "what each page gets", "log text and console", "views of the frontier"], technique="online monitor that is the wallets' node: parses each request, answers or fails, and compares with what the pages asked for; twin processor; log comparison",
     note="compiled from the real source with stand-ins for wasm-bindgen, js-sys and reqwest; the inline JavaScript runs in Node")
MV="apps/wasm/mvp/src/"
WEB = "apps/wasm/mvp/web/"
prop("C33", "The MVP wallet tells its page each status from its proxy, and its chain",
     "Connecting dials exactly the address the page asks for and, for every connection that comes about, opens one node-status stream; however the stream is cut into pieces, every line that is the base64 of a whole status is told to the page's current event emitter as one update event, before more is waited for, in order and once, with exactly its values; other lines (empty, no base64, no JSON, fields missing or of another type) tell nothing and keep nothing back; a stream that ends or fails ends the reading of it and nothing else: other tasks of the page and other streams go on, and a request that is no message or no address, and an address that cannot be dialled, give the page an error and tell nothing. "
     "The wallet's exports show and steer its one processor as its own interface does: a poll makes the same requests with the same outcome, the best state's hash and JSON are those of the processor's frontier, and the block before a block is the one the network stores, or an error.",
     ["inputs", "fault_sequences", "schedules", "histories"], "all requests of a page, all streams and their fragmentations, ends and failures, and all answers of the network",
     "no test exists: the wallet needs a browser and a proxy",
     [MV+"lib.rs", MV+"js_exports.rs", MV+"event_emitter.rs", MV+"frontier.rs", MV+"utils.rs", "apps/wasm/mvp/proto/messages.proto"],
     [("connection", MV+"lib.rs: connect_async"), ("status stream", MV+"lib.rs: NodeStatusCodec::read_response"), ("events", MV+"event_emitter.rs"), ("chain", MV+"js_exports.rs")],
     ["what is dialled and opened", "every event with its bytes, at each read of a stream", "what the page gets", "requests of each poll and views of the frontier"], technique="online monitor that is the proxy: at each read it compares the events told so far with the statuses complete by then; twin processor",
     note="the whole crate is compiled from its real source with stand-ins for wasm-bindgen, js-sys, libp2p and the generated protocol buffers; the real libp2p's timeouts are not part of it")
prop("C34", "The MVP wallet's page shows its user every peer as it was last told",
     "Each click on Connect of a page whose module has been loaded asks the module to connect once, to exactly the address in the page's field and with the page's emitter already set, a connection that fails is told to the user, and before the module is loaded nothing is asked of it. "
     "However a status is encoded (fields in any order, defaults left out or not, fields of later versions between), the page reads the values it has, and bytes that are no status change nothing; after any history the table shows each peer told of since the last connect exactly once, with the hash, commit, sync status, uptime and connection of its last status, and the right counts of connected and of all peers.",
     ["inputs", "histories", "schedules"], "all histories of clicks, addresses and messages, and all encodings of all statuses",
     "no test exists: the page needs a browser, the module and a proxy",
     [WEB+"pages/libp2p.vue", WEB+"pb/messages.ts", WEB+"pb/requests.ts"],
     [("page", WEB+"pages/libp2p.vue: connect, mounted"), ("codecs", WEB+"pb/messages.ts: decodePeerStatus")],
     ["requests that reach the module, and whether they can be answered", "what the user is told", "the table's cells and counts after any operation"], technique="online monitor around the page, in Node: model of the peers told of against the rows that the real template renders",
     note="the page's script, template and codecs are compiled from the real files; module, emitter, browser and Vue's runtime are stand-ins, so that Vue's own reactivity is not part of it; ids of peers are not plain numbers")
