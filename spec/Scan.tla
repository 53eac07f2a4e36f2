-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* How the library recognises an answer in what it has read so far: a      *)
(* transcription of ReadPacket (libcomfo/conn.go) and UnmarshalPacket      *)
(* (libcomfo/proto.go).  ScanAgrees relates it to the byte-wise reading in *)
(* Wire, which says what an answer is without reference to the code.       *)
(***************************************************************************)
EXTENDS Wire

\* unescapeData: a doubled 07 counts once, a single 07 is dropped.
Unescape(s) ==
    FoldLeft(LAMBDA a, b :
               IF b # ESC THEN [out |-> Append(a.out, b), half |-> FALSE]
               ELSE IF a.half THEN [out |-> Append(a.out, ESC), half |-> FALSE]
               ELSE [a EXCEPT !.half = TRUE],
             [out |-> <<>>, half |-> FALSE], s).out

\* packetComplete
Complete(s) == Len(s) >= 4 /\ Len(Unescape(SubSeq(s, 4, Len(s) - 1))) >= s[3]

\* The split function: the first mark in s, if any.
IsMark(s, i) == s[i] = ESC /\ i < Len(s) /\ s[i+1] \in {ACK, STA, END}
MarkAt(s, inPacket) ==
    LET hits == {i \in 1..Len(s) : IsMark(s, i) /\
                    (~inPacket \/ (s[i+1] = END /\ Complete(SubSeq(s, 1, i - 1))))}
    IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

\* UnmarshalPacket
Unmarshal(s) ==
    LET data == Unescape(SubSeq(s, 4, Len(s) - 1)) IN
    IF Len(s) < 4 \/ s[3] # Len(data) \/ s[Len(s)] # Checksum(s[2], data)
    THEN [ok |-> FALSE, cmd |-> 0, data |-> <<>>]
    ELSE [ok |-> TRUE, cmd |-> s[2], data |-> data]

More  == [st |-> "more", data |-> <<>>]
Wrong == [st |-> "err",  data |-> <<>>]
Good(d) == [st |-> "ok", data |-> d]

\* What QueryPacket makes of the input s after a request cmd.
Verdict(s, expect, cmd) ==
    LET a == MarkAt(s, FALSE) IN
    IF a = 0 THEN More
    ELSE IF a # 1 \/ s[a+1] # ACK THEN Wrong
    ELSE IF ~expect THEN Good(<<>>)
    ELSE LET s2 == SubSeq(s, 3, Len(s))
             b == MarkAt(s2, FALSE) IN
         IF b = 0 THEN More
         ELSE IF b # 1 \/ s2[b+1] # STA THEN Wrong
         ELSE LET s3 == SubSeq(s2, 3, Len(s2))
                  e == MarkAt(s3, TRUE) IN
              IF e = 0 THEN More
              ELSE LET u == Unmarshal(SubSeq(s3, 1, e - 1)) IN
                   IF u.ok /\ u.cmd = (cmd + 1) % 256 THEN Good(u.data) ELSE Wrong

-----------------------------------------------------------------------------
\* Input s, read byte by byte, is understood the same way by both.
ScanAgrees(s, expect, cmd) ==
    LET p == Feed(ParserInit(expect, cmd), s)
        v == Verdict(s, expect, cmd) IN
    /\ p.st = "ok" => v.st = "ok" /\ (expect => v.data = p.data)
    /\ v.st = "ok" => p.st \in {"ok", "loose"}
    /\ v.st = "err" => p.st \in {"bad", "loose"} \/ ~Viable(p)
=============================================================================
