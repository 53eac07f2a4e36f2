-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The bytes exchanged with a ComfoAir unit: frames, escaping, checksum,   *)
(* the incremental reading of a reply, and the meaning of every request    *)
(* and reply payload.  Pure operators, no state.                           *)
(*                                                                         *)
(* Frame on the wire:                                                      *)
(*   07 F0 | 00 cmd | len | payload, every 07 doubled | checksum | 07 0F   *)
(* Acknowledgement: 07 F3.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

ESC == 7
ACK == 243   \* F3
STA == 240   \* F0
END == 15    \* 0F
Byte == 0..255

AckMark   == <<ESC, ACK>>
StartMark == <<ESC, STA>>
EndMark   == <<ESC, END>>

-----------------------------------------------------------------------------
(* Encoding *)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

Checksum(cmd, data) == (cmd + Len(data) + SumSeq(data) + 173) % 256

Escape(data) ==
    FoldLeft(LAMBDA a, b : IF b = ESC THEN a \o <<ESC, ESC>> ELSE Append(a, b), <<>>, data)

MaxPayload == 255

\* The frame that carries command cmd and payload data (Len(data) <= 255).
Frame(cmd, data) ==
    StartMark \o <<0, cmd, Len(data)>> \o Escape(data) \o <<Checksum(cmd, data)>> \o EndMark

\* What a unit sends in answer to a get request: acknowledgement, then a frame
\* whose command is the request's plus one.
Reply(reqCmd, data) == AckMark \o Frame(reqCmd + 1, data)

-----------------------------------------------------------------------------
(* Reading a reply, one byte at a time.                                    *)
(*                                                                         *)
(* A parser state p has                                                    *)
(*   st    "more"   everything so far is the beginning of a good answer    *)
(*         "ok"     a complete good answer has been read                   *)
(*         "bad"    what was read is not, and cannot become, one           *)
(*         "loose"  deviations the implementation tolerates in some forms: *)
(*                  a single 07 inside the payload (it drops the 07), and  *)
(*                  a non-zero first command byte (it does not look).      *)
(*                  Whether such an answer is taken or refused is left     *)
(*                  open.                                                  *)
(*   ph    what is expected next                                           *)
(*   more  bytes came after the verdict was in                             *)

ParserInit(expect, cmd) ==
    [st |-> "more", ph |-> "A0", expect |-> expect, cmd |-> cmd,
     hi |-> 0, len |-> 0, data |-> <<>>, sloppy |-> FALSE, n |-> 0, more |-> FALSE]

LOCAL Bad(p)    == [p EXCEPT !.st = "bad"]
LOCAL To(p, ph) == [p EXCEPT !.ph = ph]
LOCAL Want(p, b, x, ph) == IF b = x THEN To(p, ph) ELSE Bad(p)
LOCAL DataDone(p) == IF Len(p.data) = p.len THEN To(p, "K") ELSE To(p, "D")

LOCAL Step1(p, b) ==
    CASE p.st # "more" -> [p EXCEPT !.more = TRUE]
      [] p.ph = "A0" -> Want(p, b, ESC, "A1")
      [] p.ph = "A1" -> IF b # ACK THEN Bad(p)
                        ELSE IF p.expect THEN To(p, "S0")
                        ELSE [p EXCEPT !.st = "ok", !.ph = "Z"]
      [] p.ph = "S0" -> Want(p, b, ESC, "S1")
      [] p.ph = "S1" -> Want(p, b, STA, "H0")
      [] p.ph = "H0" -> [p EXCEPT !.ph = "H1", !.hi = b, !.sloppy = (b # 0)]
      [] p.ph = "H1" -> [p EXCEPT !.ph = "H2", !.n = b]
      [] p.ph = "H2" -> DataDone([p EXCEPT !.len = b])
      [] p.ph = "D"  -> IF b = ESC THEN To(p, "D7")
                        ELSE DataDone([p EXCEPT !.data = Append(@, b)])
      [] p.ph = "D7" -> IF b = ESC THEN DataDone([p EXCEPT !.data = Append(@, b)])
                        ELSE [p EXCEPT !.st = "loose"]
      [] p.ph = "K"  -> IF b = Checksum(p.n, p.data) THEN To(p, "E0")
                        ELSE IF b = ESC THEN [p EXCEPT !.st = "loose"]
                        ELSE Bad(p)
      [] p.ph = "E0" -> Want(p, b, ESC, "E1")
      [] p.ph = "E1" -> IF b = ESC /\ Checksum(p.n, p.data) = ESC THEN [p EXCEPT !.st = "loose"]
                        ELSE IF b # END \/ p.n # (p.cmd + 1) % 256 THEN Bad(p)
                        ELSE IF p.sloppy THEN [p EXCEPT !.st = "loose"]
                        ELSE [p EXCEPT !.st = "ok", !.ph = "Z"]

\* Feed bytes s to parser p.
Feed(p, s) == FoldLeft(Step1, p, s)

\* The answer so far is the beginning of a good answer to the request, as far
\* as can be told: giving up on it early would lose a valid reply.
Viable(p) ==
    /\ p.st = "more"
    /\ ~p.sloppy
    /\ p.ph \in {"A0", "A1", "S0", "S1", "H0", "H1"} \/ p.n = (p.cmd + 1) % 256

-----------------------------------------------------------------------------
(* Reply payloads.  Command codes of the get requests: *)
GetCmd == [GetFans |-> 11, GetBootloader |-> 103, GetFirmware |-> 105, GetFanProfiles |-> 205,
           GetTemperatures |-> 209, GetErrors |-> 217, GetHours |-> 221, GetBypass |-> 223]

GetOps == DOMAIN GetCmd

PayloadLen == [GetFans |-> 6, GetBootloader |-> 13, GetFirmware |-> 13, GetFanProfiles |-> 14,
               GetTemperatures |-> 9, GetErrors |-> 17, GetHours |-> 20, GetBypass |-> 7]

U16(d, i) == d[i] * 256 + d[i+1]
U24(d, i) == (d[i] * 256 + d[i+1]) * 256 + d[i+2]
Degrees(b) == (b \div 2) - 20          \* whole degrees Celsius
Rpm(raw)   == (1875000 \div raw) % 65536   \* a 16-bit number of revolutions
Blank == {9, 10, 11, 12, 13, 32}

\* Text without leading and trailing blanks.
Trim(s) ==
    LET keep == {i \in 1..Len(s) : s[i] \notin Blank}
    IN IF keep = {} THEN <<>>
       ELSE SubSeq(s, CHOOSE i \in keep : \A j \in keep : i <= j,
                      CHOOSE i \in keep : \A j \in keep : i >= j)

\* A payload that can be decoded for operation op.
Decodable(op, d) ==
    /\ Len(d) = PayloadLen[op]
    /\ op = "GetFans" => U16(d, 3) # 0 /\ U16(d, 5) # 0

\* The value of a decodable payload, field by field.
Decode(op, d) ==
    CASE op \in {"GetBootloader", "GetFirmware"} ->
           [MajorVersion |-> d[1], MinorVersion |-> d[2], BetaVersion |-> d[3],
            DeviceName |-> Trim(SubSeq(d, 4, 13))]
      [] op = "GetTemperatures" ->
           [Comfort |-> Degrees(d[1]), OutsideAir |-> Degrees(d[2]), SupplyAir |-> Degrees(d[3]),
            InsideAir |-> Degrees(d[4]), ExhaustAir |-> Degrees(d[5]), GeoHeat |-> Degrees(d[7]),
            Reheating |-> Degrees(d[8]), KitchenHood |-> Degrees(d[9])]
      [] op = "GetBypass" ->
           [Factor |-> d[3], Level |-> d[4], Correction |-> d[5], SummerMode |-> (d[7] = 1)]
      [] op = "GetHours" ->
           [FanAway |-> U24(d, 1), FanLow |-> U24(d, 4), FanMid |-> U24(d, 7), FanHigh |-> U24(d, 18),
            FrostProtect |-> U16(d, 10), Reheating |-> U16(d, 12), BypassOpen |-> U16(d, 14),
            Filter |-> U16(d, 16)]
      [] op = "GetFans" ->
           [InPercent |-> d[1], OutPercent |-> d[2], InSpeed |-> Rpm(U16(d, 3)), OutSpeed |-> Rpm(U16(d, 5))]
      [] op = "GetFanProfiles" ->
           [OutAway |-> d[1], OutLow |-> d[2], OutMid |-> d[3], OutHigh |-> d[11],
            InAway |-> d[4], InLow |-> d[5], InMid |-> d[6], InHigh |-> d[12],
            InFanActive |-> (d[10] = 1),
            CurrentOut |-> d[7], CurrentIn |-> d[8], CurrentMode |-> d[9]]
      [] op = "GetErrors" -> [Filter |-> (d[9] = 1)]

\* Zero values, which accompany an error.
ZeroOf(op) ==
    CASE op \in {"GetBootloader", "GetFirmware"} ->
           [MajorVersion |-> 0, MinorVersion |-> 0, BetaVersion |-> 0, DeviceName |-> <<>>]
      [] op = "GetTemperatures" ->
           [Comfort |-> 0, OutsideAir |-> 0, SupplyAir |-> 0, InsideAir |-> 0, ExhaustAir |-> 0,
            GeoHeat |-> 0, Reheating |-> 0, KitchenHood |-> 0]
      [] op = "GetBypass" -> [Factor |-> 0, Level |-> 0, Correction |-> 0, SummerMode |-> FALSE]
      [] op = "GetHours" ->
           [FanAway |-> 0, FanLow |-> 0, FanMid |-> 0, FanHigh |-> 0, FrostProtect |-> 0,
            Reheating |-> 0, BypassOpen |-> 0, Filter |-> 0]
      [] op = "GetFans" -> [InPercent |-> 0, OutPercent |-> 0, InSpeed |-> 0, OutSpeed |-> 0]
      [] op = "GetFanProfiles" ->
           [OutAway |-> 0, OutLow |-> 0, OutMid |-> 0, OutHigh |-> 0, InAway |-> 0, InLow |-> 0,
            InMid |-> 0, InHigh |-> 0, InFanActive |-> FALSE, CurrentOut |-> 0, CurrentIn |-> 0,
            CurrentMode |-> 0]
      [] op = "GetErrors" -> [Filter |-> FALSE]

-----------------------------------------------------------------------------
(* Setting requests *)
SetSpeedCmd == 153      \* 99
SetProfilesCmd == 207   \* CF
SetComfortCmd == 211    \* D3

SpeedOk(s)      == s \in 0..4
ComfortOk(t)    == t \in 0..107            \* the API's argument is an unsigned number of degrees
ProfileOk(m, p) == m \in 0..3 /\ p \in 0..100

ComfortByte(t) == (t + 20) * 2

\* The profile values as they are written: exhaust and supply, in the unit's order.
ProfilesPayload(v) ==
    <<v.OutAway, v.OutLow, v.OutMid, v.InAway, v.InLow, v.InMid, v.OutHigh, v.InHigh>>

\* Profiles v with profile m (0..3) set to p percent, supply and exhaust.
WithProfile(v, m, p) ==
    CASE m = 0 -> [v EXCEPT !.InAway = p, !.OutAway = p]
      [] m = 1 -> [v EXCEPT !.InLow = p,  !.OutLow = p]
      [] m = 2 -> [v EXCEPT !.InMid = p,  !.OutMid = p]
      [] m = 3 -> [v EXCEPT !.InHigh = p, !.OutHigh = p]
=============================================================================
