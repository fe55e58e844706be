"""Which specification modules and harness drivers decide which property."""
import os
from engine import BUILD, MC, Trace, builtin_confs, edges

CHECKS = {}
NOT_APPLICABLE = {}

CODEC = "Serializer calls recorded on random types, values and hostile bytes, each judged by TLC against Beserial.tla."
CHECKS["C16"] = dict(mc=[MC("MCBeserial", thorough="MCBeserialDeep.cfg")], traces=[Trace("C16", "TraceCodec", "JudgeCodec", 4000, 24000)], note=CODEC)
CHECKS["C17"] = dict(mc=[MC("MCBeserial", thorough="MCBeserialDeep.cfg")], traces=[Trace("C17", "TraceCodec", "JudgeCodec", 4000, 40000)], note=CODEC)
CHECKS["C18"] = dict(mc=[MC("MCBeserial", thorough="MCBeserialDeep.cfg")], traces=[Trace("C18", "TraceCodec", "JudgeCodec", 4000, 40000)], note=CODEC)
CHECKS["C18"]["traces"].append(Trace("C16w", "TraceWire", "JudgeWire", 920, 9200))
CHECKS["C19"] = dict(mc=[], traces=[Trace("C19", "TraceWire", "JudgeWire", 4600, 23000)], note="Random and extreme chain objects, their truncations, wrong prefixes and damaged bytes against the layouts of Wire.tla.")
CHECKS["C20"] = dict(mc=[], traces=[Trace("C20", "TraceWire", "JudgeInterlink", 1024, 10240)], note="Interlinks of every length 0..255.")
CHECKS["C21"] = dict(mc=[], traces=[Trace("C21", "TraceWire", "JudgeSigner", 1024, 10240)], note="Signature proofs with paths of every length 0..255; Blake2b in the specification.")
CHECKS["C22"] = dict(mc=[], traces=[Trace("C22", "TraceWire", "JudgeMessage", 4000, 20000)], note="Messages of every type, their payloads intact, truncated, extended, damaged and under other types.")
CHECKS["C19"]["mc"] = [MC("MCWire", thorough="MCWireDeep.cfg")]
CHECKS["C20"]["mc"] = [MC("MCInterlink", thorough="MCInterlinkDeep.cfg")]
CHECKS["C21"]["mc"] = [MC("MCMerkle")]
CHECKS["C22"]["mc"] = [MC("MCMessages", thorough="MCMessagesDeep.cfg")]
CHECKS["C25"] = dict(mc=[MC("MCAddress", thorough="MCAddressDeep.cfg")], traces=[Trace("C25", "TraceMisc", "JudgeAddress", 3000, 30000)], note="Encoded addresses and their texts with spaces anywhere, against Address.tla.")
CHECKS["C26"] = dict(mc=[MC("MCAddress", thorough="MCAddressDeep.cfg")], traces=[Trace("C26", "TraceMisc", "JudgeAddress", 2500, 30000)], note="Near misses of valid texts (right and wrong checksum) against Address.tla.")
CHECKS["C27"] = dict(mc=[MC("MCEmission", thorough="MCEmissionDeep.cfg")], traces=[Trace("C27", "TraceMisc", "JudgeEmission", 400, 4000)], note="Query sequences to cold processes and consecutive heights against the recurrence in Emission.tla.")
CHECKS["C28"] = dict(race=True, mc=[MC("SupplyCache", thorough="SupplyCache3.cfg"), MC("SupplyCache", "SupplyCacheNoLock.cfg", expect="Invariant CacheRight is violated")], traces=[Trace("C28", "TraceMisc", "JudgeEmission", 160, 2000, race=True)], note="Concurrent queries from cold processes of the race-detector build; answers against Emission.tla, the cache algorithm model-checked under all interleavings in SupplyCache.tla.")
CHECKS["C29"] = dict(mc=[MC("MCCompact", thorough="MCCompactDeep.cfg")], traces=[Trace("C29", "TraceMisc", "JudgeCompact", 2500, 30000)], note="Targets and difficulties of every size against Compact.tla.")
CHECKS["C32"] = dict(mc=[MC("MCNibbles", thorough="MCNibblesDeep.cfg")], traces=[Trace("C32", "TraceMisc", "JudgeNibbles", 5000, 50000)], note="Keys and path pairs against Nibbles.tla.")

TREE = "Histories of puts and deletes on in-memory, copying and reopened stores, keys sharing prefixes of all lengths; every transition of MCPMTree replayed on 40-digit keys; judged against the canonical Patricia-Merkle tree of the contents (PMTree.tla, Blake2b)."
TREE_EDGES = edges("MCPMTree", "MCPMTreeEdges.cfg", "MCPMTreeDeepEdges.cfg")
for p, j in (("C12", "JudgeMap"), ("C13", "JudgeRoot"), ("C14", "JudgeStore")):
    CHECKS[p] = dict(mc=[MC("MCPMTree", thorough="MCPMTreeDeep.cfg")], traces=[Trace("tree", "TraceTree", j, 160, 1600, start="StartTree", inputs=TREE_EDGES)], note=TREE)
CHECKS["C15"] = dict(mc=[MC("MCOverlay", thorough="MCOverlayDeep.cfg")],
    traces=[Trace("plainlayers", "TraceTree", "JudgePlain", 240, 2400, start="StartPlain", inputs=edges("MCOverlay", "MCOverlayEdges.cfg", "MCOverlayDeepEdges.cfg")),
            Trace("treelayers", "TraceTree", "JudgeLayers", 120, 1200, start="StartTree")],
    note="Stacks of up to 4 layers: every transition of MCOverlay replayed on plain nodes, random histories, and whole trees on overlays with flushes.")

LEDGER = "Random chains of blocks with creations, contract spends and prunes, near misses of all rules, amounts up to 2^64-1: stored accounts before and after each block against Ledger.tla, whose block application is model-checked in small constants."
for i in range(1, 11):
    p = "C%02d" % i
    CHECKS[p] = dict(mc=[MC("MCLedger", thorough="MCLedgerDeep.cfg", timeout=800)],
        traces=[Trace("hostile" if p == "C10" else "ledger", "TraceLedger", "Judge%02d" % i, 1200, 12000, start="StartLedger")], note=LEDGER)
SMALL = edges("MCLedger", "MCLedgerEdges.cfg", "MCLedgerDeepEdges.cfg")
for i in range(1, 11):
    CHECKS["C%02d" % i]["traces"].append(Trace("small", "TraceLedger", "Judge%02d" % i, 500, 3000, start="StartSmall", inputs=SMALL))
CHECKS["C10"]["traces"].append(Trace("ledger", "TraceLedger", "Judge10", 800, 8000, start="StartLedger"))
for p, k in (("C04", "basic"), ("C05", "vesting"), ("C06", "htlc"), ("C07", "init")):
    CHECKS[p]["traces"].append(Trace("apply-" + k, "TraceLedger", "Judge" + p[1:], 1500, 15000, start="StartLedger"))
CHECKS["C11"] = dict(mc=[MC("MCLedger", thorough="MCLedgerDeep.cfg", timeout=800)], traces=[Trace("revert", "TraceLedger", "JudgeRevert", 800, 8000, start="StartRevert")],
    note="Blocks accepted by the real code are reverted by it and the stored accounts compared with those before; that a block determines its inverse is model-checked (Unpush in Ledger.tla).")
CHECKS["C05"]["mc"].append(MC("MCContract", thorough="MCContractDeep.cfg"))
CHECKS["C06"]["mc"].append(MC("MCContract", thorough="MCContractDeep.cfg"))
for p in ("C01", "C02", "C03"):
    CHECKS[p]["mc"].append(MC("MCLedger", "MCLedgerTwo.cfg"))
for p, v in (("C05", "Vesting"), ("C06", "Htlc"), ("C07", "Creates"), ("C08", "Prunes")):
    CHECKS[p]["mc"].append(MC("MCLedger", "MCLedgerNever%s.cfg" % v, expect="Invariant Never%s is violated" % v))

WALLET = "Random and extreme transactions signed by wallets of random keys, every field altered afterwards; judged against Wallet.tla with Ed25519 verification inside TLC."
CHECKS["C23"] = dict(mc=[MC("MCWallet", thorough="MCWalletDeep.cfg")], traces=[Trace("wallet", "TraceWallet", "JudgeWallet", 240, 2400, start="StartWallet", consts="CONSTANT Verify <- RealVerify")], note=WALLET)
CHECKS["C24"] = dict(mc=[MC("MCWallet", thorough="MCWalletDeep.cfg")], traces=[Trace("peers", "TraceWallet", "JudgePeer", 240, 2400, start="StartWallet", consts="CONSTANT Verify <- RealVerify")], note="Random and extreme peer addresses signed, every signed field, the key and the signature altered; judged against Wallet.tla with Ed25519 verification inside TLC.")

GIMIQ = os.path.join(BUILD, "gimiq")
CHECKS["C30"] = dict(mc=[MC("MCGenesis")], traces=[Trace("genesis", "TraceGenesis", "JudgeGenesis", 240, 2400, start="StartGenesis", inputs=builtin_confs)],
    note="The built-in profiles and generated ones, intact and corrupted, opened and initialised by the real code; judged against Genesis.tla with the layouts, block application and state tree of the specification.")
CHECKS["C31"] = dict(gimiq=True, mc=[MC("MCGenesis")], traces=[Trace("replay", "TraceGenesis", "JudgeReplay", 400, 4000, start="StartReplay", inputs=builtin_confs, env={"GIMIQ": GIMIQ})],
    note="Archives of generated chains, intact and with one entry corrupted, dropped, repeated or exchanged, replayed by the real tool; exit code and counts against the replay machine of Genesis.tla.")

CHECKS["C33"] = dict(mc=[], traces=[Trace("ledger", "TraceShare", "JudgeOwn", 800, 8000, start="StartLedger"),
                                    Trace("records", "TraceShare", "JudgeRecords", 300, 3000, start="StartRecords")],
    note="Blocks overwritten after they were applied, accounts overwritten after they were stored or looked up.")
RACE = {"GORACE": "halt_on_error=1 exitcode=66"}
PAR = [("C16", "TraceCodec", "JudgeCodec", "NoState", ""), ("C17", "TraceCodec", "JudgeCodec", "NoState", ""), ("C18", "TraceCodec", "JudgeCodec", "NoState", ""),
       ("C19", "TraceWire", "JudgeWire", "NoState", ""), ("C20", "TraceWire", "JudgeInterlink", "NoState", ""),
       ("C21", "TraceWire", "JudgeSigner", "NoState", ""), ("C22", "TraceWire", "JudgeMessage", "NoState", ""),
       ("C25", "TraceMisc", "JudgeAddress", "NoState", ""), ("C26", "TraceMisc", "JudgeAddress", "NoState", ""),
       ("C29", "TraceMisc", "JudgeCompact", "NoState", ""), ("C32", "TraceMisc", "JudgeNibbles", "NoState", ""),
       ("tree", "TraceTree", "JudgeStore", "StartTree", ""), ("ledger", "TraceLedger", "Judge03", "StartLedger", ""),
       ("wallet", "TraceWallet", "JudgeWallet", "StartWallet", "CONSTANT Verify <- RealVerify"),
       ("peers", "TraceWallet", "JudgePeer", "StartWallet", "CONSTANT Verify <- RealVerify"),
       ("keys", "TraceWallet", "JudgeKeys", "StartKeys", "CONSTANT Verify <- RealVerify"),
       ("views", "TraceWallet", "JudgeView", "StartWallet", "CONSTANT Verify <- RealVerify"),
       ("records", "TraceShare", "JudgeRecords", "StartRecords", ""), ("C36", "TraceShare", "JudgePeerID", "NoState", ""),
       ("C41", "TraceErrors", "JudgeErrors", "NoState", ""), ("C41w", "TraceErrors", "JudgeErrors", "NoState", ""),
       ("forks", "TraceFork", "JudgeFork", "StartFork", ""), ("genesis", "TraceGenesis", "JudgeGenesis", "StartGenesis", "")]
CHECKS["C34"] = dict(race=True, mc=[MC("MCIsolation", thorough="MCIsolationDeep.cfg"), MC("MCIsolation", "MCIsolationShared.cfg", expect="Invariant Undisturbed is violated"),
                                    MC("MCIsolation", "MCIsolationLazy.cfg", expect="Invariant NoRace is violated")],
    traces=[Trace("readers", "TraceShare", "JudgeReaders", 80, 800, start="StartReaders", race=True, env=RACE, consts="")] +
           [Trace("par-" + d, m, j, 24, 240, start=st, race=True, env=RACE, consts=k, inputs=builtin_confs if d == "genesis" else None) for d, m, j, st, k in PAR],
    note="Cases of different drivers run side by side in one process of the race-detector build, and goroutines reading the same state, block and messages; every answer is judged against the sequential specification.")
CHECKS["C35"] = dict(mc=[MC("MCRecords", thorough="MCRecordsDeep.cfg")], traces=[Trace("records", "TraceShare", "JudgeRecords", 400, 4000, start="StartRecords")],
    note="Accounts of every kind with extreme contents stored, replaced, removed and looked up; comparisons of accounts that differ in one bit.")
CHECKS["C36"] = dict(mc=[], traces=[Trace("C36", "TraceShare", "JudgePeerID", 512, 5120)], note="Random and extreme keys, every protocol number.")
CHECKS["C37"] = dict(mc=[MC("MCLedger", "MCLedgerCause.cfg", thorough="MCLedgerCauseDeep.cfg", timeout=800)],
    traces=[Trace("ledger", "TraceLedger", "Judge37", 1600, 16000, start="StartLedger"), Trace("small", "TraceLedger", "Judge37", 500, 3000, start="StartSmall", inputs=SMALL)],
    note="The errors of rejected blocks (random near misses of all rules; every small block) against the step at which Ledger.tla stops.")
CHECKS["C38"] = dict(mc=[MC("MCLedger", "MCLedgerCrash.cfg", thorough="MCLedgerCrashTwo.cfg", timeout=800), MC("MCOverlay", "MCOverlayPartial.cfg", thorough="MCOverlayPartialDeep.cfg")],
    traces=[Trace("faults", "TraceLedger", "Judge38", 480, 4800, start="StartLedger"), Trace("flushfaults", "TraceTree", "JudgeFlushFault", 320, 3200, start="StartPlain")],
    note="Storage that fails at any access while the real code checks a block or flushes an overlay; what is stored and shown afterwards against Ledger.tla with crashes and Overlay.tla with partial flushes.")
CHECKS["C33"]["mc"] = [MC("MCIsolation", thorough="MCIsolationDeep.cfg"), MC("MCIsolation", "MCIsolationShared.cfg", expect="Invariant Undisturbed is violated")]
CHECKS["C39"] = dict(mc=[MC("MCWallet", thorough="MCWalletDeep.cfg")], traces=[Trace("keys", "TraceWallet", "JudgeKeys", 400, 4000, start="StartKeys", consts="CONSTANT Verify <- RealVerify")],
    note="Wallets of random, extreme, repeated and nearly equal seeds and generated ones, asked for keys, addresses and signatures in random orders; key derivation and verification inside TLC.")
CHECKS["C40"] = dict(mc=[MC("MCWallet", thorough="MCWalletDeep.cfg")], traces=[Trace("views", "TraceWallet", "JudgeView", 800, 8000, start="StartWallet", consts="CONSTANT Verify <- RealVerify")],
    note="Random and extreme transactions of both formats looked at through every method, against TxContent and Extended of the specification.")
CHECKS["C41"] = dict(mc=[MC("MCBeserial", thorough="MCBeserialDeep.cfg")],
    traces=[Trace("C41", "TraceErrors", "JudgeErrors", 2400, 24000), Trace("C41w", "TraceErrors", "JudgeErrors", 1380, 13800),
            Trace("C41m", "TraceErrors", "JudgeErrors", 1200, 12000)],
    note="Prefixes of valid encodings, damaged ones, values that cannot be encoded, arguments that are no pointers and unknown message types; the reported errors against the reasons of Beserial.tla.")
CHECKS["C42"] = dict(mc=[MC("MCFork", thorough="MCForkDeep.cfg"), MC("MCFork", "MCForkLoose.cfg", expect="Invariant AsOnItsOwn is violated")],
    traces=[Trace("forks", "TraceFork", "JudgeFork", 480, 4800, start="StartFork")],
    note="States opened on overlays over other states, blocks applied to them, flushed down, dropped, forked again; every live state after every step against the ledger.")

CHECKS["C43"] = dict(gimiq=True, mc=[MC("MCExport", thorough="MCExportDeep.cfg"), MC("MCExport", "MCExportUnsorted.cfg", expect="Invariant DoneIsRight is violated"), MC("MCExport", "MCExportGaps.cfg", expect="Invariant DoneIsRight is violated")],
    traces=[Trace("export", "TraceExport", "JudgeExport", 150, 1500, start="StartExport", env={"GIMIQ": GIMIQ, "PYSTUB": os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "pystub")})],
    note="Runs of the real script against a server of ours that answers batches in any order, twice, not at all or wrongly; the archive is read back byte for byte and replayed with the real tool.")
