----------------------------- MODULE TraceErrors -----------------------------
(* Judges why the serializer and the message layer refuse (C41).               *)
EXTENDS TraceWire

Is(e, w) == \E i \in 1..Len(e.why) : e.why[i] = w
FullIs(e, w) == \E i \in 1..Len(e.fullwhy) : e.fullwhy[i] = w

(* Decoding with a schema: ErrUnexpectedEOF says that the bytes are an encoding *)
(* that stops too early, and is never said of bytes that are no encoding; a     *)
(* list without a length tag is named as such, and only if there is one.        *)
BadRefusal(s, e) ==
  LET B == HexToBytes(e["in"])
      D == Dec(s, B, 0)
      w == IF D.ok THEN "ok" ELSE D.why IN
  IF e.out \notin {"ok", "err"} \/ e.full \notin {"ok", "err"} THEN "decoder: " \o e.out \o " " \o e.full
  ELSE IF D.ok # (e.out = "ok") THEN "wrong verdict"
  ELSE IF e.n < 0 \/ e.n > Len(B) THEN "consumed count out of range"
  ELSE IF Is(e, "arg") \/ FullIs(e, "arg") THEN "input blamed on the argument"
  ELSE IF Is(e, "unknown") \/ FullIs(e, "unknown") THEN "input blamed on a message type"
  ELSE IF w \in {"ok", "bad"} /\ (Is(e, "eof") \/ FullIs(e, "eof")) THEN "invalid input reported as incomplete"
  ELSE IF w = "eof" /\ ~Defective(s) /\ ~(Is(e, "eof") /\ FullIs(e, "eof")) THEN "incomplete input not reported as such"
  ELSE IF w = "notag" /\ ~(Is(e, "notag") /\ FullIs(e, "notag")) THEN "missing length tag not reported"
  ELSE IF ~Defective(s) /\ (Is(e, "notag") \/ FullIs(e, "notag")) THEN "length tag reported missing"
  ELSE ""

(* Encoding: a value refused for one reason only is refused with its error. *)
BadUnenc(s, e) ==
  LET E == Enc(s, e.v)  W == Causes(s, e.v) IN
  IF e.out \notin {"ok", "err"} THEN "encoder: " \o e.out
  ELSE IF E.ok # (e.out = "ok") THEN "wrong verdict"
  ELSE IF Is(e, "eof") \/ Is(e, "unknown") \/ Is(e, "arg") THEN "value blamed on the input"
  ELSE IF Is(e, "nil") /\ "nil" \notin W THEN "nil reported where there is none"
  ELSE IF Is(e, "notag") /\ "notag" \notin W THEN "length tag reported missing"
  ELSE IF W = {"nil"} /\ ~Is(e, "nil") THEN "nil not reported"
  ELSE IF W = {"notag"} /\ ~Is(e, "notag") THEN "missing length tag not reported"
  ELSE ""

(* What is no pointer to a value is refused by every call, by the decoder with *)
(* the error that names its type.                                              *)
BadArg(e) ==
  IF e.out # "err" THEN "bad argument: " \o e.out
  ELSE IF e.fn \in {"Unmarshal", "UnmarshalFull"} /\ ~Is(e, "arg") THEN "bad argument not reported"
  ELSE IF ~e.same THEN "another type reported"
  ELSE IF e.n # 0 THEN "bytes consumed for a bad argument"
  ELSE ""

BadMessageRefusal(e) ==
  LET known == SmallType(e.ty) /\ IsMessageType(IntOf(e.ty)) IN
  IF e.out \notin {"ok", "err"} THEN "payload: " \o e.out
  ELSE IF ~known THEN
    (IF e.out # "err" \/ ~Is(e, "unknown") THEN "unknown message type not reported"
     ELSE IF e.named # e.ty THEN "another message type reported"
     ELSE IF Is(e, "eof") THEN "unknown message reported as incomplete" ELSE "")
  ELSE IF Is(e, "unknown") THEN "known message type reported as unknown"
  ELSE LET s == MessageS(IntOf(e.ty))
           B == HexToBytes(e["in"])
           D == Dec(s, B, 0)
           w == IF D.ok THEN "ok" ELSE D.why IN
       IF (D.ok /\ D.p = Len(B)) # (e.out = "ok") THEN "wrong verdict"
       ELSE IF w \in {"ok", "bad"} /\ Is(e, "eof") THEN "invalid payload reported as incomplete"
       ELSE IF w = "eof" /\ ~Is(e, "eof") THEN "incomplete payload not reported as such"
       ELSE ""

BadError(e) ==
  LET s == IF "s" \in DOMAIN e THEN e.s
           ELSE CASE e.ty = "block" -> BlockS(Zero32Hex) [] e.ty = "interlink" -> InterlinkS(Zero32Hex)
                  [] OTHER -> WireS(e) IN
  CASE e.ev = "refusal" -> BadRefusal(s, e)
    [] e.ev = "unenc" -> BadUnenc(s, e)
    [] e.ev = "arg" -> BadArg(e)
    [] e.ev = "payload" -> BadMessageRefusal(e)
JudgeErrors(q, e) == Verdict(BadError(e), q)
=============================================================================
