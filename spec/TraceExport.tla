----------------------------- MODULE TraceExport -----------------------------
(* Recorded runs of the block export script against Export.tla (C43): what was *)
(* asked for, the batches with the answers of the server, the archive, and     *)
(* what the replay tool says about it.                                         *)
EXTENDS TraceBase, Export

HexDigit == <<"30", "31", "32", "33", "34", "35", "36", "37", "38", "39">>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN HexDigit[n + 1] ELSE Decimal(n \div 10) \o HexDigit[(n % 10) + 1]
ManifestName == "6d616e69666573742e6a736f6e"

StartExport(e) == [x |-> ExportStart([from |-> e.from, to |-> e.to, batch |-> e.batch]), vague |-> FALSE]
Asked(e) == {e.heights[i] : i \in DOMAIN e.heights}
(* answers given twice may be taken or refused *)
Batch(m, e) ==
  [m EXCEPT !.vague = @ \/ Len(e.answers) > Len(e.heights),
            !.x = IF @.state = "failed" THEN @ ELSE IF e.fault # "" THEN ExportFail(@) ELSE ExportBatch(@, Asked(e), e.answers)]
BadBatch(m, e) ==
  IF ~e.wellformed THEN "not a batch of requests for blocks"
  ELSE IF Len(e.heights) > m.x.q.batch THEN "more requests in a batch than allowed"
  ELSE IF \E n \in Asked(e) : n < m.x.q.from \/ n > m.x.q.to THEN "a block out of range is asked for"
  ELSE IF Cardinality(Asked(e)) # Len(e.heights) \/ ~MayAsk(m.x, Asked(e)) THEN "a block is asked for twice" ELSE ""

Names(q) == LET w == Wanted(q) IN [i \in DOMAIN w |-> Decimal(w[i])]
Contents(m) == [i \in DOMAIN m.x.entries |-> m.x.entries[i].b]
BadArchive(m, e) ==
  LET es == e.entries  q == m.x.q IN
  IF e.hang THEN "the export hangs"
  ELSE IF m.x.state = "failed" THEN (IF e.rc = 0 THEN "the export succeeds although blocks are missing" ELSE "")
  ELSE IF e.rc # 0 THEN (IF m.vague THEN "" ELSE "the export of known blocks fails")
  ELSE IF m.x.state = "running" THEN "not all blocks are asked for"
  ELSE IF ~e.whole THEN "the archive is not whole"
  ELSE IF \E i \in DOMAIN es : ~es[i].plain THEN "not a plain ustar archive"
  ELSE IF Len(es) = 0 \/ es[1].name # ManifestName THEN "the first file is no manifest"
  ELSE IF es[1].size # 1024 \/ ~es[1].json THEN "the manifest is not padded to 1024 bytes"
  ELSE IF Len(es) - 1 # Len(m.x.entries) THEN "wrong number of blocks in the archive"
  ELSE IF [i \in DOMAIN m.x.entries |-> es[i + 1].name] # Names(q) THEN "blocks in wrong order or under wrong names"
  ELSE IF [i \in DOMAIN m.x.entries |-> es[i + 1].b] # Contents(m) THEN "wrong contents of a block" ELSE ""
BadReplay(m, e) ==
  IF e.rc # 0 THEN "the replay tool refuses the export of a valid chain"
  ELSE IF e.blocks # Len(m.x.entries) THEN "the replay tool does not see all blocks" ELSE ""
JudgeExport(m, e) ==
  CASE e.ev = "ask" -> Verdict("", m)
    [] e.ev = "batch" -> Verdict(BadBatch(m, e), TLCEval(Batch(m, e)))
    [] e.ev = "exported" -> Verdict(BadArchive(m, e), m)
    [] e.ev = "replayed" -> Verdict(BadReplay(m, e), m)
=============================================================================
