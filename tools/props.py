#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": mech,
                  "observe_at": observe or [], "hook_needed": None}})
def m(name, where): return {"name": name, "where": where}

p("C01", "Accepted blocks conserve funds",
  "When a block is accepted, the sum of all balances in the account state grows by exactly the block reward for the block's height. Fees only move from senders to the miner, and no mix of basic, vesting, HTLC, contract-creation and pruning transactions creates, destroys or wraps around any amount.",
  ["inputs", "histories"], "every account state with a total of at most 2^64-1, every block (any transactions, amounts, fees, miner), every sequence of blocks",
  "The only ledger test pushes two fixed blocks with zero fees and never sums balances; conservation quantifies over all 64-bit amounts, account kinds and histories.",
  ["accounts/accounts.go", "wire/account.go", "policy/policy.go"],
  [m("debit, credit, coinbase", "accounts/accounts.go Push/pushTx/pushInherents"), m("per-account balance updates", "wire/account.go ApplyOutgoingTx/ApplyIncomingTx")],
  ["accounts.Accounts.Push", "tree entries before and after"])
p("C02", "A rejected block leaves the state untouched",
  "If applying a block does not succeed, every account, the state root and the stored tree are exactly what they were before, however far into the block the failure occurred. Intermediate states of a block are never observable.",
  ["inputs", "histories", "fault_sequences"], "every state, every block that fails at any transaction, in any phase (senders, recipients, creation, pruning, reward)",
  "No test ever pushes a block that fails; atomicity quantifies over every failure point of every block.",
  ["accounts/accounts.go", "tree/store_overlay.go", "tree/tree.go"],
  [m("all-or-nothing block application", "accounts/accounts.go Push (doc comment of Accounts)")],
  ["accounts.Accounts.Push", "tree.PMTree.Hash", "Store contents"])
p("C03", "Block outcome follows the defined phase order",
  "Applying a block debits all senders in transaction order, then credits all recipients, then creates contracts, then prunes emptied contracts, then pays the miner; the block is accepted exactly when every one of these steps is permitted, and the resulting accounts are exactly those these steps produce. In particular funds received or contracts created in a block cannot be spent in that same block.",
  ["inputs", "histories", "programs"], "every state and every sequence of transactions in a block, including chained, repeated and self transfers",
  "The tests push blocks of at most one transaction; ordering only shows in multi-transaction blocks with dependencies.",
  ["accounts/accounts.go"], [m("phase sequence", "accounts/accounts.go Push")], ["accounts.Accounts.Push", "accounts.Accounts.GetAccount"])
p("C04", "Basic accounts never overdraw or wrap",
  "A spend from a basic account is permitted exactly when value plus fee, computed without wraparound, does not exceed the balance, and then lowers it by exactly value plus fee. An incoming payment raises the balance by exactly its value and is refused if the balance would not fit in 64 bits; a transaction whose declared account type differs from the account actually at that address is refused.",
  ["inputs"], "every balance, value and fee in 0..2^64-1, every declared type",
  "No test spends from a basic account beyond one fixed amount; the boundary and wraparound cases are 2^128 inputs.",
  ["wire/account.go", "accounts/accounts.go"], [m("balance check", "wire/account.go BasicAccount.ApplyOutgoingTx/ApplyIncomingTx"), m("type check", "accounts/accounts.go pushTx")],
  ["wire.Account.ApplyOutgoingTx", "accounts.Accounts.Push"])
p("C05", "Vesting contracts release funds only on schedule",
  "Only a proof naming the owner spends from a vesting contract. A spend of value plus fee is permitted exactly when it does not exceed the unlocked part of the balance: nothing at or before the start height, afterwards the balance minus the locked amount (not below zero), where the locked amount is the total minus one step amount per full elapsed step of blocks (not below zero; none if either step parameter is zero). A permitted spend lowers the balance by exactly value plus fee and changes no term.",
  ["inputs", "histories"], "every contract (start, step blocks, step amount, total, balance), every height in 0..2^32-1, every value and fee, every history of repeated withdrawals",
  "No test spends from a vesting contract at all; the rule quantifies over parameters, heights and repeated withdrawals.",
  ["wire/account.go"], [m("schedule", "wire/account.go VestingAccount.amountUnlocked"), m("owner and balance check", "wire/account.go VestingAccount.ApplyOutgoingTx")],
  ["wire.VestingAccount.ApplyOutgoingTx", "accounts.Accounts.Push"])
p("C06", "HTLC funds move only under their hash/time-lock rules",
  "Spending value plus fee from an HTLC is accepted exactly when it does not exceed the balance and one of these holds: at a height not after the timeout, a well-formed proof names the recipient as signer, repeats the contract's hash algorithm and root, and leaves at least the share (1 - depth/count) of the total amount (rounded down; none if depth reaches count); at any height, both recipient and sender are named as signers; at a height after the timeout, the sender is named. The balance then falls by exactly value plus fee.",
  ["inputs", "histories"], "every contract, height, depth, count, proof kind, proof bytes (including malformed), value and fee",
  "No test touches HTLCs; the rule quantifies over heights around the timeout, proof kinds, malformed proofs and partial reveals.",
  ["wire/account.go", "wire/signature.go"], [m("proof dispatch", "wire/account.go HTLCAccount.ApplyOutgoingTx")],
  ["wire.HTLCAccount.ApplyOutgoingTx", "accounts.Accounts.Push"])
p("C07", "Contracts start with the stated terms and keep them",
  "A contract-creation transaction turns its recipient into a contract of the declared kind whose terms are exactly those in the transaction data (the 24, 36 or 44 byte vesting forms or the HTLC form with non-zero hash count) and whose balance is the address's prior balance plus everything credited; any other data or kind is refused. An existing contract is never credited, re-created or altered: only its balance can fall, until it is empty and pruned.",
  ["inputs", "histories"], "every creation data byte string, every prior state of the recipient address, every later block",
  "One test creates one vesting contract in the shortest form and never reads it back.",
  ["wire/account.go", "accounts/accounts.go"], [m("term parsing", "wire/account.go VestingAccount.Init/HTLCAccount.Init"), m("creation phase", "accounts/accounts.go createContracts")],
  ["accounts.Accounts.Push", "wire.Account.Init"])
p("C08", "The prune list names exactly the emptied contracts",
  "A block is accepted only if its prune list names, once each, exactly the contracts its transactions emptied, each with the contract's exact final contents; those contracts then no longer exist in the state, and no other account is removed except basic accounts whose balance is zero. A missing, altered, premature or repeated prune entry makes the block be rejected. The entries may stand in any order: an otherwise permitted block is not rejected if they are right.",
  ["inputs", "histories"], "every block with any prune list, every set of emptied and non-emptied contracts",
  "The pruning test contains a TODO instead of a prune; no prune list is ever checked.",
  ["accounts/accounts.go", "wire/account.go"], [m("prune comparison", "accounts/accounts.go pruneAccounts"), m("implicit prune of empty basic accounts", "accounts/accounts.go PutAccount")],
  ["accounts.Accounts.Push"])
p("C09", "The miner gets exactly the reward plus all fees",
  "An accepted block credits its miner address, as the last step, with exactly the block reward for its height plus the sum of the fees of all its transactions, and credits nobody else beyond the transaction values. A block whose miner address holds a contract at that point is rejected.",
  ["inputs", "histories"], "every block, height and miner address, including miners that also send, receive, create or are pruned in the block",
  "The reward of two blocks is paid in a test but never read back; fees are always zero.",
  ["accounts/accounts.go", "policy/policy.go"], [m("coinbase", "accounts/accounts.go pushInherents")], ["accounts.Accounts.Push"])
p("C10", "No decodable block can crash block application",
  "Applying any block that decodes from bytes, to any state, returns success or an error and never panics or hangs. This includes blocks without a body, at height zero, paying existing contracts, or carrying malformed contract data and proofs.",
  ["inputs", "histories"], "every byte string that decodes to a block, every reachable state",
  "Tests push only well-formed blocks; robustness quantifies over hostile ones.",
  ["accounts/accounts.go", "wire/account.go", "wire/bitset.go", "wire/signature.go"], [m("error returns instead of assertions", "accounts/accounts.go, wire/account.go")], ["accounts.Accounts.Push"])
p("C11", "Reverting a block restores the previous state",
  "Reverting the most recently applied block has exactly the inverse effect of applying it: every account and the state root are again what they were before that block.",
  ["histories"], "every state and every accepted block",
  "No test reverts a block.",
  ["accounts/accounts.go"], [m("block revert", "accounts/accounts.go Revert")], ["accounts.Accounts.Revert"])
p("C12", "The state tree is a faithful key-value map",
  "Looking up a key returns exactly the value most recently put under it, and nothing if it was never put or was last deleted by putting an empty value; a put reports a change exactly when it changes the looked-up value. Operations on one key never affect another key.",
  ["histories", "inputs"], "every sequence of insertions, updates and deletions over every set of 20-byte keys, including keys sharing long prefixes",
  "The tests use three keys in a few orders and never look a value up; splits and merges at other depths and digits are not reached.",
  ["tree/tree.go", "tree/store.go"], [m("recursive update and prune", "tree/tree.go update/prune")], ["tree.PMTree.PutEntry", "tree.PMTree.GetEntry"])
p("C13", "The state root commits to exactly the current contents",
  "The root hash is a function of the current set of key-value pairs alone, equal to the Patricia-Merkle hash of that set, whatever sequence of insertions, updates and deletions led to it. Different sets therefore never share a root, short of a hash collision.",
  ["histories", "inputs"], "every history of puts and deletes over every set of keys and values",
  "The tests compare three-key histories with three known hashes; stale cached hashes and wrong merges need other key topologies and longer histories.",
  ["tree/tree.go", "tree/node.go", "tree/store.go"], [m("hash invalidation and recomputation", "tree/tree.go invalidatePath/updateHashes"), m("node hashing", "tree/node.go Hash")], ["tree.PMTree.Hash"])
p("C14", "Tree storage is canonical and backend-independent",
  "After every operation the storage backend holds exactly the nodes of the canonical tree of the current contents, correctly linked and hashed, with no leftover or missing node. Results do not depend on whether the backend shares or copies the nodes it is given, so a tree reopened on its stored nodes behaves identically.",
  ["histories", "configurations"], "every history, every conforming backend: in-memory, copying, layered, and reopening at any point",
  "Tests only use the in-memory backend, which hides missing writes by sharing pointers, and never look at stored nodes.",
  ["tree/tree.go", "tree/store_mem.go", "tree/store_overlay.go"], [m("node writes", "tree/tree.go update/prune/updateHashes"), m("storage contract", "tree/store.go Store")], ["tree.Store"])
p("C15", "An overlay isolates writes until it is flushed",
  "Writes and deletions made through an overlay are visible through it and leave the lower layer's contents completely unchanged until it is flushed; flushing makes the lower layer equal to what the overlay showed and leaves the overlay empty. What an overlay does not override it shows as the lower layer has it at that moment. This holds for plain nodes, for whole state trees on top of overlays, and for stacked overlays.",
  ["histories"], "every interleaving of reads, writes, deletions and flushes on both layers and on stacked layers",
  "No test uses the overlay.",
  ["tree/store_overlay.go", "tree/tree.go"], [m("difference map", "tree/store_overlay.go"), m("copy before modify", "tree/tree.go")], ["tree.OverlayStore", "tree.PMTree on an overlay"])
p("C16", "Serialization follows the documented layout and round-trips",
  "Encoding any supported value either fails with an error or yields exactly the documented big-endian layout (fixed-size two's-complement numbers, concatenated fields and array elements, length-prefixed slices and strings, flag-prefixed optionals), appended to the given prefix, and decoding those bytes gives back an equal value and consumes all of them. A value that cannot be represented, such as a sequence longer than its length prefix can express, is refused.",
  ["inputs", "programs"], "every type built from the supported kinds and tags, nested arbitrarily (slice elements occupy at least one byte), every value of it",
  "Tests encode about a dozen fixed values of fixed types.",
  ["beserial/encode.go", "beserial/decode.go", "beserial/tags.go"], [m("reflective encoder", "beserial/encode.go"), m("reflective decoder", "beserial/decode.go")], ["beserial.Marshal", "beserial.Unmarshal"])
p("C17", "Decoding arbitrary bytes is safe, exact and unambiguous",
  "Decoding any bytes into any supported type returns without panicking, consumes between zero and all of the bytes, and succeeds exactly when a valid encoding is a prefix of the input; the consumed bytes are then exactly the encoding of the decoded value. Overwriting the input afterwards does not change the decoded value. Bytes after it are left alone by the prefix decoder and refused by the full decoder, and a declared length never causes an allocation out of proportion to the input.",
  ["inputs", "programs"], "every byte string, every supported type, including truncated, extended and bit-flipped encodings",
  "Tests decode valid inputs and one invalid boolean; no truncated, oversized or hostile input is tried.",
  ["beserial/decode.go"], [m("bounds checks", "beserial/decode.go pop/number/value")], ["beserial.Unmarshal", "beserial.UnmarshalFull"])
p("C18", "The predicted size equals the encoded size",
  "For every value that can be encoded, the size predicted for it succeeds and equals the number of bytes its encoding appends, for generic types and for types with their own encoding, at any nesting.",
  ["inputs", "programs"], "every supported type and value, including wire types that encode themselves",
  "Tests predict nine fixed shapes, none with booleans or self-encoding types, and never compare with an encoding.",
  ["beserial/size.go", "wire/msg_types.go"], [m("reflective size", "beserial/size.go"), m("custom sizes", "wire SizeBESerial methods")], ["beserial.Size"])
p("C19", "Chain objects have their consensus byte layout",
  "Block headers, interlinks, bodies, whole blocks, basic and extended transactions, transaction contents, accounts of every kind, prune entries, hashes and signature proofs encode to the Nimiq consensus layout, field by field, with the type prefixes that select the variant. Decoding such bytes gives the same fields back, re-encoding the decoded object reproduces the bytes, and unknown variants or truncated inputs are errors.",
  ["inputs"], "every field value of every chain object, every truncation and unknown type prefix",
  "Tests fix the bytes of two signed transactions and three accounts; the genesis blocks are empty of transactions and interlinks.",
  ["wire/block.go", "wire/tx.go", "wire/tx_basic.go", "wire/tx_extended.go", "wire/account.go", "wire/hash.go", "wire/bitset.go", "wire/signature.go"],
  [m("struct layouts and custom codecs", "wire/*.go")], ["beserial.Marshal/Unmarshal on wire types"])
p("C20", "Interlinks decompress to the full hash list",
  "Decoding an interlink of n entries yields n hashes where entry i is a freshly read hash if repeat bit i is zero and the previous entry (initially the previous-block hash) if it is one, reading exactly the distinct hashes present in the input. Every length 0..255 and every bit pattern, including padding bits, is handled without a crash and re-encodes to the same bytes.",
  ["inputs"], "every interlink length 0..255, repeat pattern, hash values, truncation",
  "No test decodes a non-empty interlink.",
  ["wire/block.go", "wire/bitset.go"], [m("interlink decompression", "wire/block.go BlockInterlink.UnmarshalBESerial"), m("bit set", "wire/bitset.go")], ["beserial.Unmarshal into wire.BlockInterlink"])
p("C21", "Signature proofs name the right signer",
  "The signer address of a signature proof is the first 20 bytes of the Merkle root obtained by hashing the public key and then combining it with each path node on the side its branch bit says; with an empty path it is the address of the public key. This holds for every path length 0..255 and survives encoding and decoding.",
  ["inputs"], "every public key and path of 0..255 nodes with any branch bits",
  "No test computes a Merkle root; the wallet tests only use empty paths.",
  ["wire/signature.go", "wire/bitset.go", "wire/account.go"], [m("Merkle path", "wire/signature.go ComputeRoot")], ["wire.SignatureProof.SignerAddress", "wire.PublicKeyToAddress"])
p("C22", "P2P messages round-trip under their own message type",
  "Encoding a message yields its 8-byte big-endian type followed by its payload, and decoding that payload under that type gives back a message of the same kind, reporting the same type, with equal fields. Unknown types, truncated payloads and payloads with trailing bytes are errors, and no payload under any type causes a panic.",
  ["inputs"], "every message kind, every field value, every peer-address protocol and network-address kind, every byte string under every type",
  "No test encodes or decodes any message.",
  ["wire/msg_types.go", "wire/msg.go", "wire/msg_inv.go", "wire/msg_p2p.go", "wire/p2p.go"], [m("message dispatch", "wire/msg_types.go"), m("peer address codec", "wire/p2p.go")], ["wire.MarshalMessage", "wire.UnmarshalMessage"])
p("C23", "Wallet signatures verify and bind every content field",
  "Signing a transaction produces an Ed25519 signature by the wallet's key over exactly the transaction's content (data, sender, recipient, types, value, fee, start height, network, flags), attached so that the proof's signer is the wallet's address, and changes nothing else in the transaction. A wallet refuses to sign a basic transaction naming another public key, and a basic transaction and its extended equivalent have the same content and signer.",
  ["inputs"], "every key, every transaction content, every single-field alteration after signing",
  "Two fixed transactions are compared with fixed bytes; nothing verifies a signature or alters a field.",
  ["wallet/basic.go", "wire/tx.go", "wire/tx_basic.go", "wire/tx_extended.go"], [m("content serialization and signing", "wallet/basic.go signTx"), m("content projection", "wire AsTxContent/AsExtendedTx")], ["wallet.Basic.SignBasicTx", "wallet.Basic.SignExtendedTx"])
p("C24", "Peer address signatures verify exactly what was signed",
  "A signed peer address verifies, and stops verifying if its protocol, services, timestamp, public key or signature is altered in any way. Signing records the signer's public key and changes no other field.",
  ["inputs"], "every key, protocol, services and timestamp value, every single-field alteration",
  "No test signs or verifies a peer address.",
  ["wire/p2p.go"], [m("signed buffer", "wire/p2p.go Sign/VerifySignature")], ["wire.PeerAddress.Sign", "wire.PeerAddress.VerifySignature"])
p("C25", "Addresses have one checksummed text form that round-trips",
  "Encoding any 20-byte address gives \"NQ\", two check digits and 32 characters of the Nimiq base-32 alphabet in space-separated groups of four, with an IBAN (mod-97) checksum, and decoding that text, with spaces added or removed anywhere, returns the same address.",
  ["inputs"], "every 20-byte address, every placement of spaces",
  "Tests encode and decode one address.",
  ["address/address.go"], [m("encoder and checksum", "address/address.go Encode/addressCheck")], ["address.Encode", "address.Decode"])
p("C26", "Only valid address texts decode",
  "Decoding a text succeeds exactly when, spaces removed, it has 36 characters, starts with \"NQ\", its remaining 32 characters are in the alphabet and the IBAN checksum over all of it is right; it then returns the address those characters encode, and otherwise an error. Thus a wrong country code, a changed character or two swapped characters are never silently accepted as another address unless the checksum permits it.",
  ["inputs"], "every string, in particular every near-miss of a valid address",
  "Seven fixed invalid strings are tried.",
  ["address/address.go"], [m("decoder checks", "address/address.go Decode/truncateWhitespace/addressCheck")], ["address.Decode"])
p("C27", "Coin emission follows the supply recurrence and its cap",
  "The reward of a block is the remaining supply divided by 4194304, rounded down, or 4000 from the emission tail start on while at least 4000 remain, and the supply after a block is the previous supply plus that reward; supply never decreases and never exceeds the total. The answers are the same whatever heights were asked before, in any order.",
  ["inputs", "histories"], "every height up to the end of emission, every sequence of queries from a cold or warm cache",
  "Twelve rewards are compared in one increasing order.",
  ["policy/policy.go"], [m("reward formula", "policy/policy.go BlockRewardBySupply"), m("supply checkpoint cache", "policy/policy.go SupplyAfter")], ["policy.BlockReward", "policy.SupplyAfter"])
p("C28", "Concurrent supply queries never disturb each other",
  "Any number of goroutines may query supplies and rewards at the same time, from a cold cache, in any interleaving: each gets the value a sequential query would get, no query blocks forever, there is no data race, and later queries are unaffected.",
  ["schedules"], "every interleaving of concurrent queries over cold, partially filled and full caches",
  "No test runs two queries concurrently.",
  ["policy/policy.go"], [m("cache lock", "policy/policy.go supplyCacheLock")], ["policy.SupplyAfter", "policy.BlockReward"])
p("C29", "Difficulty targets convert to compact form exactly",
  "The compact form of a positive target is its size in bytes, counted with a leading zero byte when the top bit is set, followed by its three most significant bytes (zero-padded on the right), so it never loses more than the bits below those bytes, larger targets never get a smaller compact form, and no positive target or difficulty causes a crash. The target of a difficulty is the maximum target divided by it, rounded down.",
  ["inputs"], "every target of 1 to 254 bytes and every positive difficulty",
  "No test covers these conversions.",
  ["wire/utils.go", "policy/policy.go"], [m("compact encoding", "wire/utils.go TargetToCompact/DifficultyToTarget")], ["wire.TargetToCompact", "wire.DifficultyToTarget", "wire.DifficultyToCompact"])
p("C30", "Genesis profiles load completely and verify their state",
  "Opening a profile yields exactly the configuration, block and accounts stored in its files, for the built-in networks and for profiles on disk, by a relative or absolute path; malformed or truncated files are errors. Initializing a state from a profile succeeds exactly when the resulting root equals the root in the genesis block, every listed account is then present, and for the built-in main network the balances sum to the policy's supply after block one and the configured genesis hash is the hash of the block header.",
  ["inputs", "configurations"], "every profile: both built-in ones and any generated one, intact or corrupted",
  "The test opens the two built-in profiles and never looks at the result.",
  ["genesis/genesis.go", "genesis/files", "accounts/accounts.go"], [m("profile parsing", "genesis/genesis.go OpenProfile"), m("root check", "genesis/genesis.go InitAccounts")], ["genesis.OpenProfile", "genesis.Profile.InitAccounts"])
p("C31", "The block replay tool accepts only fully valid archives",
  "Given a block archive, the replay command exits successfully, reporting the number of blocks and transactions, exactly when every entry after the manifest decodes completely, applies to the state and yields the state root its header states. A block that is invalid, truncated or has the wrong root anywhere in the archive makes it fail.",
  ["inputs", "histories"], "every archive: valid chains of any length and chains with one corrupted entry at any position",
  "The command has no tests.",
  ["cmd/gimiq/main.go", "accounts/accounts.go", "genesis/genesis.go"], [m("replay loop", "cmd/gimiq/main.go")], ["exit status and output of the gimiq command"])
p("C32", "Address keys and nibble paths convert losslessly",
  "Splitting a 20-byte key into 40 nibbles (high nibble first) and joining them back is the identity, packing nibbles two per byte keeps every nibble, the hex form has one digit per nibble, the common prefix of two paths is the longest path that is a prefix of both, and the prefix relation is exact. Only a path of exactly 40 nibbles joins to a key, any other panics as documented; no other operation on a nibble path, of even or odd length or empty, causes a crash.",
  ["inputs"], "every key and every pair of nibble paths of any length",
  "Three keys and three paths are formatted; packing and prefix operations are not tested.",
  ["tree/store.go", "wire/nibbles.go"], [m("nibble conversions", "tree/store.go, wire/nibbles.go")], ["tree.Nibbles", "wire.Nibbles"])
p("C33", "The ledger shares no memory with its callers",
  "What a state holds changes only through its own operations: a block passed to Push or an account passed to PutAccount may be changed by the caller afterwards, and an account handed out by a lookup may be changed, without any effect on later lookups, roots, or on other states. Push itself leaves the block as it was. The built-in initial account handed out for unknown addresses is not shared between lookups.",
  ["histories"], "every sequence of pushes, stores and lookups in which the caller keeps, reuses and changes all objects passed in and handed out",
  "Tests never change an object after passing it in or receiving it.",
  ["accounts/accounts.go", "wire/account.go", "tree/tree.go"], [m("account lookup and storage", "accounts/accounts.go GetAccount/PutAccount"), m("in-place application", "wire/account.go ApplyOutgoingTx/ApplyIncomingTx")], ["accounts.Accounts.Push", "accounts.Accounts.GetAccount", "accounts.Accounts.PutAccount"])
p("C34", "Independent objects are usable concurrently, shared ones readable concurrently",
  "Goroutines working on objects of their own (states, trees, codecs, messages, wallets, address texts) never influence each other: every answer is the one a run alone would give, and there is no data race. Goroutines that only read the same state, block, proof, peer address or message at the same time each get the sequential answer, and there is no data race. (A single Wallet, whose address is computed lazily, and a state being changed are not shared.)",
  ["schedules"], "every interleaving of operations on distinct objects, and of read-only operations on shared ones",
  "No test runs two operations at the same time.",
  ["beserial/encode.go", "beserial/decode.go", "wire", "tree/tree.go", "accounts/accounts.go", "address/address.go", "wallet/basic.go"], [m("no hidden shared state", "package variables of all packages"), m("read-only lookups", "accounts/accounts.go GetAccount, tree/tree.go GetEntry/Hash")], ["all packages"])
p("C35", "Accounts are stored exactly, compared exactly, and vanish when empty",
  "After PutAccount, looking up that address yields the same kind of account with the same contents, every other address is as before, and storing nil or a basic account without funds leaves no entry at the address, so that the root depends only on the accounts that differ from the initial one. AccountEq is true exactly when both are given, are of the same kind and agree in every field, and is symmetric; Balance, IsEmpty (no balance) and Type report what the account contains.",
  ["inputs", "histories"], "every account of every kind with any contents, every sequence of stores over any addresses",
  "Tests store a handful of accounts with one fixed content each.",
  ["accounts/accounts.go", "wire/account.go"], [m("storage", "accounts/accounts.go PutAccount/GetAccount"), m("equality", "wire/account.go AccountEq")], ["accounts.Accounts.PutAccount", "accounts.Accounts.GetAccount", "wire.AccountEq"])
p("C36", "Peer identifiers and protocol schemes are computed exactly",
  "The identifier of a peer is the first 16 bytes of the Blake2b-256 hash of its public key (of exactly the bytes given), the key is left untouched, and the scheme of a protocol number is dumb for 0, wss for 1, rtc for 2, ws for 4 and invalid for every other number.",
  ["inputs"], "every public key and every protocol number",
  "No test covers either.",
  ["wire/p2p.go"], [m("peer id", "wire GetPeerID"), m("schemes", "wire ProtocolScheme")], ["wire.GetPeerID", "wire.ProtocolScheme"])
p("C37", "Rejected blocks report what is really wrong",
  "The error of a rejected block describes the first step, in the defined phase order, that is not permitted. Missing funds are an OverspendError stating the amount that was available (for vesting contracts: unlocked) and the amount asked for; an account of another type than stated is an AccountTypeMismatchError with the stated and the actual type; an unknown sender type, an invalid recipient or creation, and an overflowing reward name the address concerned; a wrong prune list names an account that was wrongly listed or wrongly left out. None of these errors is ever reported for a block whose failing step is of another nature.",
  ["inputs", "histories"], "every state and every rejected block, at whichever transaction and phase it fails",
  "No test looks at the error of a rejected block.",
  ["accounts/accounts.go", "wire/account.go"], [m("typed errors", "accounts/accounts.go, wire/account.go OverspendError")], ["error of accounts.Accounts.Push"])
p("C38", "An interrupted block application or flush loses nothing",
  "If the storage fails (panics) at any read while a block is being checked, the storage holds exactly what it held before, and afterwards the same state applies that block, or another, as though nothing had happened. If the storage fails at any write while an overlay is flushed onto it, the overlay still shows exactly what it showed before, the storage holds for every node either the old or the new one, and flushing again completes.",
  ["fault_sequences", "histories"], "every failure point of every block application and of every flush, repeated failures included",
  "No test injects a failure.",
  ["accounts/accounts.go", "tree/store_overlay.go"], [m("staging", "accounts/accounts.go Push"), m("restartable flush", "tree/store_overlay.go Flush")], ["accounts.Accounts.Push", "tree.OverlayStore.Flush", "Store contents"])
p("C39", "A wallet is determined by its key",
  "A wallet derived from a 32-byte seed has the Ed25519 key pair of that seed, whatever happens to the seed's buffer afterwards; a generated wallet has a matching and fresh key pair. Its address is the first 20 bytes of the Blake2b-256 hash of its public key, whatever was asked before, it signs as that key and address, and signing the same content again gives the same signature.",
  ["inputs", "histories"], "every seed, every sequence of questions and signatures",
  "Tests use one fixed seed.",
  ["wallet/basic.go"], [m("derivation", "wallet/basic.go DeriveBasic/GenerateBasic"), m("cached address", "wallet/basic.go GetAddress")], ["wallet.DeriveBasic", "wallet.GenerateBasic", "wallet.Basic.GetAddress", "wallet.Basic.GetPublicKey"])
p("C40", "All views of a transaction agree",
  "For every transaction of either format, its type, value and fee, sender and recipient with their types, content and extended equivalent are those its fields say: a basic transaction is from the address of its public key, between basic accounts, without data and flags, and its extended equivalent carries the same content and a proof made of its key, an empty path and its signature. Looking at a transaction never changes it.",
  ["inputs"], "every basic and extended transaction",
  "Tests look at no more than two fixed transactions.",
  ["wire/tx_basic.go", "wire/tx_extended.go", "wire/tx.go"], [m("views", "wire/tx_basic.go, wire/tx_extended.go")], ["wire.Tx"])
p("C41", "Refused input is told apart: incomplete, invalid, unknown",
  "When decoding is refused, the error is ErrUnexpectedEOF (as errors.Is sees it) if the bytes are the beginning of an encoding that stops too early, and never if they contain something that no encoding starts with or only have bytes too many; a list that declares more elements than there are bytes left may be refused either way. A list without length tag is reported as ErrNoLenTag and a nil pointer that is not optional as ErrNonOptionalNil, each only where it occurs; an argument that is no non-nil pointer is refused, by Unmarshal with an InvalidUnmarshalError of its type; and a payload yields UnknownMessageError, with the type's number, exactly if its message type is unknown.",
  ["inputs"], "every type and value, every prefix of every valid encoding, every other byte string, every 64-bit message type, every kind of argument",
  "The tests look at the text of one decoding error and at none of the documented errors.",
  ["beserial/decode.go", "beserial/encode.go", "beserial/errors.go", "wire/msg_types.go", "wire/block.go", "wire/bitset.go", "wire/signature.go", "wire/p2p.go"],
  [m("end of input", "beserial/decode.go pop and the types that decode themselves"), m("unknown messages", "wire/msg_types.go UnmarshalMessage")],
  ["beserial.Unmarshal", "beserial.UnmarshalFull", "beserial.Marshal", "wire.UnmarshalMessage"])
p("C42", "Speculative states are isolated and agree with direct ones",
  "An account state opened on an overlay over another state's store (itself possibly such an overlay) accepts and rejects blocks exactly as, and shows exactly the accounts and the root of, an independent state to which the same blocks were applied. Nothing done to it shows in the states below or beside it until it is flushed; flushing makes the state below equal to it, and dropping it leaves no trace.",
  ["histories", "inputs"], "every account state, every history of opening, blocks, root queries, flushes and drops over stacks and siblings of such states, where no state is changed while another lies over it",
  "No test applies a block on an overlay, and none stacks overlays.",
  ["accounts/accounts.go", "tree/store_overlay.go", "tree/tree.go", "tree/node.go"],
  [m("differences to the store below", "tree/store_overlay.go"), m("copying of shared nodes", "tree/tree.go update/prune/updateHashes"), m("staging of a block", "accounts/accounts.go Push")],
  ["accounts.Accounts.Push", "tree.PMTree.Hash", "tree.OverlayStore.Flush", "Store contents of every state"])
p("C43", "Block exports are complete, in order and replayable",
  "For a positive batch size and a server that knows every block asked for, the export script writes a ustar archive whose first entry is manifest.json, padded to 1024 bytes with spaces, followed by each block from --from to --to, both included, exactly once, in the order of heights, named by its height and holding exactly the server's bytes, whatever the batch size, the sizes of the blocks and the order in which a batch is answered. No batch has more than --batch requests, and no block is asked for twice or out of range. If a request fails, or a block is unknown, unreadable or not answered, the script exits with an error. The replay tool accepts the export of a valid chain and reports all its blocks.",
  ["inputs", "configurations", "fault_sequences"], "every range and batch size, every server that answers batches in any order, every failing request, refused block and missing answer",
  "No test runs the script.",
  ["scripts/export_blocks.py", "docs/block_export.md", "cmd/gimiq/main.go"], [m("batches", "scripts/export_blocks.py request loop"), m("archive", "scripts/export_blocks.py BlockDumper"), m("reading of exports", "cmd/gimiq/main.go")],
  ["scripts/export_blocks.py", "the archive it writes", "gimiq -blocksPath"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
