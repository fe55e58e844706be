----------------------------- MODULE TraceCodec -----------------------------
(* Judges recorded calls of the serializer (C16, C17, C18) against Beserial.   *)
EXTENDS TraceBase, Wire

(* C16: refused, or exactly the layout after the prefix, and it decodes back *)
BadEnc(s, e) ==
  LET E == Enc(s, e.v) IN
  IF ~E.ok THEN (IF e.out = "err" THEN "" ELSE "unencodable value not refused: " \o e.out)
  ELSE IF e.out # "ok" THEN "encodable value refused: " \o e.out
  ELSE IF e.b # e.pre \o BytesToHex(E.b) THEN "wrong bytes"
  ELSE IF e.dout # "ok" THEN "own encoding not decoded: " \o e.dout
  ELSE IF e.dn # Len(E.b) THEN "decoding consumed a wrong number of bytes"
  ELSE IF e.dv # e.v THEN "decoded value differs"
  ELSE ""

(* C18 *)
BadSize(s, e) ==
  LET E == Enc(s, e.v) IN
  IF ~E.ok THEN ""
  ELSE IF e.out # "ok" THEN "size of encodable value fails: " \o e.out
  ELSE IF e.n # Len(E.b) THEN "wrong size"
  ELSE ""

(* C17; allocations are bounded by 1 MiB plus 4 KiB per input byte *)
BadDec(s, e) ==
  IF e["in"] = "altered" THEN "input altered" ELSE
  LET B == HexToBytes(e["in"])
      D == Dec(s, B, 0) IN
  IF e.out \notin {"ok", "err"} THEN e.out
  ELSE IF e.full \notin {"ok", "err"} THEN "full: " \o e.full
  ELSE IF e.n < 0 \/ e.n > Len(B) THEN "consumed count out of range"
  ELSE IF e.kb > 1024 + 4 * Len(B) THEN "allocation out of proportion"
  ELSE IF D.ok # (e.out = "ok") THEN (IF D.ok THEN "valid encoding refused" ELSE "invalid encoding accepted")
  ELSE IF (D.ok /\ D.p = Len(B)) # (e.full = "ok") THEN "full decoder: wrong verdict"
  ELSE IF ~D.ok THEN ""
  ELSE IF e.n # D.p THEN "consumed a wrong number of bytes"
  ELSE IF e.v # D.v THEN "decoded a wrong value"
  ELSE IF e.reout # "ok" \/ e.re # BytesToHex(Take(B, D.p)) THEN "consumed bytes are not the encoding of the value"
  ELSE ""

BadCodec(s, e) ==
  CASE e.ev = "enc" -> BadEnc(s, e)
    [] e.ev = "size" -> BadSize(s, e)
    [] e.ev = "dec" -> BadDec(s, e)
JudgeCodec(q, e) == Verdict(BadCodec(e.s, e), q)
=============================================================================
