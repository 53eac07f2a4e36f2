------------------------------- MODULE MCWire -------------------------------
(* Laws of the encoding, for all payloads over a small alphabet up to a    *)
(* length, and of the decoders, one payload byte at a time.                *)
EXTENDS Wire
CONSTANTS MaxLen, Alphabet, Cmds
VARIABLES cmd, data, op, at, val
vars == <<cmd, data, op, at, val>>

Init == /\ cmd \in Cmds /\ data = <<>>
        /\ op \in GetOps /\ at = 0 /\ val = 0
Grow == /\ op = "GetErrors" /\ at = 0
        /\ Len(data) < MaxLen /\ \E b \in Alphabet : data' = Append(data, b)
        /\ UNCHANGED <<cmd, op, at, val>>
Vary == /\ data = <<>> /\ at = 0 /\ cmd = CHOOSE c \in Cmds : TRUE
        /\ at' \in 1..PayloadLen[op] /\ val' \in Byte
        /\ UNCHANGED <<cmd, data, op>>
Spec == Init /\ [][Grow \/ Vary]_vars

P(s) == Feed(ParserInit(TRUE, cmd), s)
R == Reply(cmd, data)

\* Every answer is understood, and is understood as what was sent.
RoundTrip == at = 0 => P(R).st = "ok" /\ P(R).data = data
\* No part of it is taken for the whole, and it is never given up early.
Beginnings == at = 0 => \A k \in 0..Len(R) - 1 : P(SubSeq(R, 1, k)).st = "more" /\ Viable(P(SubSeq(R, 1, k)))
\* No single changed byte makes it another good answer, unless it is the length:
\* the checksum may then come to stand where the end was.
Substitutions == at = 0 => \A k \in 1..Len(R) \ {7} : \A b \in Alphabet \cup {0, 255, R[k] + 1} :
    b \in Byte /\ b # R[k] => P([R EXCEPT ![k] = b]).st # "ok"

Payload == [i \in 1..PayloadLen[op] |-> IF i = at THEN val ELSE 1]
Ranges == data = <<>> =>
    LET p == Payload
        p14 == [i \in 1..14 |-> IF i = at THEN val ELSE i]
        v == Decode("GetFanProfiles", p14)
    IN
    /\ Decodable(op, p) =>
         LET d == Decode(op, p) IN
         CASE op = "GetTemperatures" -> \A f \in DOMAIN d : d[f] \in -20..107
           [] op = "GetFans" -> d.InSpeed \in 0..65535 /\ d.OutSpeed \in 0..65535
           [] op = "GetHours" -> \A f \in DOMAIN d : d[f] \in 0..16777215
           [] op \in {"GetBootloader", "GetFirmware"} -> Len(d.DeviceName) <= 10
           [] OTHER -> DOMAIN d = DOMAIN ZeroOf(op)
    /\ \A n \in {0, PayloadLen[op] - 1, PayloadLen[op] + 1} : ~Decodable(op, [i \in 1..n |-> 1])
    \* changing one profile changes the two values of that profile only
    /\ op = "GetFanProfiles" => \A m \in 0..3 : LET w == WithProfile(v, m, 77) IN
         /\ Cardinality({f \in DOMAIN v \ {"InFanActive"} : w[f] # v[f]}) <= 2
         /\ Cardinality({f \in DOMAIN w \ {"InFanActive"} : w[f] = 77}) >= 2
         /\ Len(ProfilesPayload(w)) = 8
    /\ ComfortOk(val) => ComfortByte(val) \in 40..254 /\ Degrees(ComfortByte(val)) = val
=============================================================================
